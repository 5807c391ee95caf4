package kwt

import (
	"fmt"
	"math"
	"math/rand"
	"sync"
	"testing/synctest"

	"github.com/ftl/sdrainer/kiwi"
	"github.com/ftl/sdrainer/scope"
	"vh/vlib"
	"vh/wsnet"
)

const blockSize = 512

// frames is a scope that keeps the level at the center of the spectrum.
type frames struct {
	mu     sync.Mutex
	values []float64
}

func (f *frames) Active() bool                         { return true }
func (f *frames) ShowTimeFrame(frame *scope.TimeFrame) {}
func (f *frames) ShowSpectralFrame(frame *scope.SpectralFrame) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.values = append(f.values, frame.Values[len(frame.Values)/2])
}

func (f *frames) take() []float64 {
	f.mu.Lock()
	defer f.mu.Unlock()
	l := f.values
	f.values = nil
	return l
}

// feedDriver drives a KiwiSDR process with its receiver. A block of level k is a carrier at the
// center with an amplitude of 2^k/128.
type feedDriver struct {
	net     *wsnet.Net
	conn    *wsnet.Conn
	process *kiwi.Process
	scope   *frames
	rate    int
	base    float64
}

var rates = []int{12000, 1, 20250, 2000000000}

func (d *feedDriver) Reset() {
	if d.process != nil {
		d.conn.HangUp()
		synctest.Wait()
		bounded(d.process.Close)
	}
	*d = feedDriver{net: &wsnet.Net{Credit: -1}, scope: &frames{}, rate: rates[vlib.Rand.Intn(len(rates))], base: d.base}
	wsnet.Install(d.net)
	var err error
	d.process, err = kiwi.New("127.0.0.1:8073", user, password, center, width, nil)
	if err != nil {
		panic(err)
	}
	d.process.SetThreshold(500)
	d.process.SetScope(d.scope)
	d.conn = d.net.Last()
}

func (d *feedDriver) blocks(n int, level int) []int {
	samples := make([]int, 2*blockSize*n)
	for i := 0; i < len(samples); i += 2 {
		samples[i] = 256 << level
	}
	return samples
}

func (d *feedDriver) calibrate() {
	d.Reset()
	d.conn.Binary([]byte("MSG audio_rate=12000"))
	synctest.Wait()
	d.conn.Binary(sound(17, d.blocks(100, 0)))
	synctest.Wait()
	if l := d.scope.take(); len(l) > 0 {
		d.base = l[0]
	}
}

func (d *feedDriver) Step(in M) any {
	switch vlib.Str(in["op"]) {
	case "rate":
		d.conn.Binary([]byte(fmt.Sprintf("MSG audio_rate=%d", d.rate)))
	case "sound":
		var samples []int
		for _, b := range list(in["blocks"]) {
			m := asM(b)
			samples = append(samples, d.blocks(vlib.Int(m["n"]), vlib.Int(m["level"]))...)
		}
		samples = append(samples, d.blocks(1, 3)[:2*vlib.Int(in["more"])]...)
		d.conn.Binary(sound(17, samples))
	case "hangup":
		d.conn.HangUp()
	case "close":
		if !bounded(d.process.Close) {
			return "stuck"
		}
	}
	synctest.Wait()
	r := []any{}
	for _, v := range d.scope.take() {
		sum := (v - d.base) / (20 * math.Log10(2)) * 100
		if math.Abs(sum-math.Round(sum)) > 0.2 {
			r = append(r, fmt.Sprintf("%f", sum))
			continue
		}
		r = append(r, int(math.Round(sum)))
	}
	return r
}

func randomFeed(r *rand.Rand, closed bool) M {
	switch n := r.Intn(30); {
	case n < 3:
		return M{"op": "rate"}
	case n == 3 && closed:
		return M{"op": []string{"hangup", "close"}[r.Intn(2)]}
	}
	blocks := []M{}
	for i := r.Intn(4); i > 0; i-- {
		blocks = append(blocks, M{"n": 1 + r.Intn([]int{2, 10, 25}[r.Intn(3)]), "level": r.Intn(6)})
	}
	more := 0
	if len(blocks) == 0 || r.Intn(4) == 0 {
		more = 1 + r.Intn(511)
	}
	return M{"op": "sound", "blocks": blocks, "more": more}
}

func feed() {
	g := vlib.LoadGraph("feed")
	tr := vlib.NewTrace("feed.ndjson")
	d := &feedDriver{}
	d.calibrate()
	g.Walk("KiwiFeed", d, 1<<30, 60, vlib.Seconds(30, 200))
	for i := 0; i < vlib.N(20, 300) && !vlib.Violated(); i++ {
		d.Reset()
		tr.Reset(nil)
		vlib.Progress(M{"scenario": "process with receiver", "rate": d.rate})
		for n := 3 + vlib.Rand.Intn(25); n > 0; n-- {
			in := randomFeed(vlib.Rand, i%2 == 0)
			vlib.ProgressStep(in)
			tr.Ev(in, d.Step(in))
		}
	}
}
