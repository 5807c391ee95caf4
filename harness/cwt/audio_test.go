package cwt

import (
	"io"
	"log"
	"math"
	"math/rand"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ftl/sdrainer/cw"
	"vh/vlib"
)

// bounded runs f and reports whether it returned within a minute of the bubble's time.
func bounded(f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	t := time.NewTimer(time.Minute)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}

// textOut collects the decoded text; it can be busy for a while.
type textOut struct {
	mu   sync.Mutex
	b    []byte
	gate chan struct{}
}

func (o *textOut) Write(b []byte) (int, error) {
	o.mu.Lock()
	gate := o.gate
	o.mu.Unlock()
	if gate != nil {
		<-gate
	}
	o.mu.Lock()
	defer o.mu.Unlock()
	o.b = append(o.b, b...)
	return len(b), nil
}

func (o *textOut) take() []int {
	o.mu.Lock()
	defer o.mu.Unlock()
	r := ints([]rune(string(o.b)))
	o.b = nil
	return r
}

type audioConfig struct {
	rate  int
	pitch float64
	block int
}

var audioConfigs = []audioConfig{{8000, 700, 44}, {48000, 750, 256}, {11025, 700, 48}, {44100, 600, 222}}

// audioDriver drives an audio demodulator in virtual time.
type audioDriver struct {
	c        audioConfig
	buffer   int
	rnd      *rand.Rand // splits the audio further
	d        *cw.AudioDemodulator
	o        *textOut
	channels int
	phase    int // the channel of the next sample
	at       int // samples per channel so far
	closed   bool
}

func (a *audioDriver) Reset() {
	if a.d != nil {
		bounded(a.d.Close)
	}
	a.o = &textOut{}
	a.channels, a.phase, a.at, a.closed = 1, 0, 0, false
	a.d = cw.NewAudioDemodulator(a.o, a.c.pitch, a.c.rate, a.buffer)
	if a.d.Blocksize() != a.c.block {
		panic("unexpected block size")
	}
}

// samples makes the next n samples; the other channels carry a tone when the first one does not.
func (a *audioDriver) samples(n int, amp int) []float32 {
	b := make([]float32, n)
	for i := range b {
		v := math.Sin(2 * math.Pi * a.c.pitch * float64(a.at) / float64(a.c.rate))
		switch {
		case a.phase == 0:
			b[i] = float32(v * float64(amp) / 1000)
		case amp == 0:
			b[i] = float32(v)
		default:
			b[i] = 0
		}
		a.phase = (a.phase + 1) % a.channels
		if a.phase == 0 {
			a.at++
		}
	}
	return b
}

func (a *audioDriver) Step(in M) any {
	var text func() any = func() any {
		synctest.Wait()
		t := a.o.take()
		if a.closed {
			return "returned"
		}
		return M{"text": t}
	}
	switch in["op"] {
	case "write":
		b := a.samples(vlib.Int(in["n"]), vlib.Int(in["amp"]))
		for len(b) > 0 {
			n := len(b)
			if a.rnd != nil {
				n = 1 + a.rnd.Intn(min(n, []int{1, 2, 3, 7, 100, 5000}[a.rnd.Intn(6)]))
			}
			part := make([]float32, n)
			copy(part, b)
			if !bounded(func() { a.d.Write(part) }) {
				return "hang"
			}
			for i := range part { // the writer may use its buffer again
				part[i] = 1
			}
			b = b[n:]
		}
	case "set":
		v := vlib.Int(in["v"])
		if !bounded(func() {
			switch in["what"] {
			case "maxscale":
				a.d.SetMaxScale(float64(v) / 1000)
			case "scale":
				a.d.SetScale(float64(v) / 1000)
			case "channels":
				a.d.SetChannelCount(v)
			case "threshold":
				a.d.SetMagnitudeThreshold(float64(v) / 1000)
			case "debounce":
				a.d.SetDebounceThreshold(v)
			case "wpm":
				a.d.PresetWPM(v)
			}
		}) {
			return "hang"
		}
		if in["what"] == "channels" {
			a.channels, a.phase = v, 0
		}
	case "get":
		v := 0
		if !bounded(func() {
			switch in["what"] {
			case "maxscale":
				v = int(math.Round(a.d.MaxScale() * 1000))
			case "threshold":
				v = int(math.Round(a.d.MagnitudeThreshold() * 1000))
			case "debounce":
				v = a.d.DebounceThreshold()
			case "wpm":
				v = a.d.WPM()
			}
		}) {
			return "hang"
		}
		if !a.closed {
			return v
		}
	case "close":
		if !bounded(a.d.Close) {
			return "hang"
		}
		r := text()
		a.closed = true
		return r
	case "closebusy":
		gate := make(chan struct{})
		a.o.mu.Lock()
		a.o.gate = gate
		a.o.mu.Unlock()
		var calls sync.WaitGroup
		call := func(f func()) {
			calls.Add(1)
			go func() { defer calls.Done(); f() }()
		}
		b := append(a.samples(a.c.block*15*a.channels, 1000), a.samples(a.c.block*400*a.channels, 0)...)
		call(func() { a.d.Write(b) })
		synctest.Wait()
		call(func() { a.d.Write(b) })
		call(func() { a.d.SetScale(1) })
		call(func() { a.d.MaxScale() })
		synctest.Wait()
		call(a.d.Close)
		call(a.d.Close)
		synctest.Wait()
		call(func() { a.d.DebounceThreshold() })
		call(func() { a.d.SetDebounceThreshold(2) })
		synctest.Wait()
		close(gate)
		if !bounded(calls.Wait) {
			return "hang"
		}
		a.closed = true
	}
	return text()
}

func audioTrace(n int) {
	tr := vlib.NewTrace("audio.ndjson")
	rnd := rand.New(rand.NewSource(vlib.Seed*6700417 + 3))
	samples := 0
	for i := 0; i < n && !vlib.Violated(); i++ {
		c := audioConfigs[rnd.Intn(len(audioConfigs))]
		a := &audioDriver{c: c, buffer: []int{0, 1, 2, 16, 5000}[rnd.Intn(5)], rnd: rnd}
		vlib.Progress(M{"random audio": i, "config": []any{c.rate, c.pitch}, "buffer": a.buffer})
		a.Reset()
		tr.Reset(M{"rate": c.rate, "block": c.block, "pitch": c.pitch, "buffer": a.buffer})
		do := func(in M) {
			vlib.ProgressStep(in)
			tr.Ev(in, a.Step(in))
		}
		choose := func(l ...int) int { return l[rnd.Intn(len(l))] }
		set := func() {
			what := []string{"maxscale", "scale", "channels", "threshold", "debounce", "wpm"}[rnd.Intn(6)]
			v := M{"maxscale": choose(2000, 5000, 12000), "scale": choose(0, 0, 500, 1000), "channels": choose(1, 2, 3, 5), "threshold": choose(300, 500, 750),
				"debounce": choose(2, 3, 5), "wpm": choose(14, 16, 20, 22, 28)}[what]
			do(M{"op": "set", "what": what, "v": v})
			if what != "scale" && what != "channels" {
				do(M{"op": "get", "what": what})
			}
		}
		for rnd.Intn(3) > 0 {
			set()
		}
		dit := 9 + rnd.Intn(8)
		on := false
		amp := choose(1000, 1000, 500, 150, 60)
		nosy := rnd.Intn(5) == 0 // looks at the settings all the time
		runs := 10 + rnd.Intn(30)
		if nosy {
			runs = 12
		}
		for ; runs > 0; runs-- {
			on = !on
			k := dit * choose(1, 1, 3, 3, 7)
			switch rnd.Intn(15) {
			case 0:
				k = 1 + rnd.Intn(5*dit)
			case 1:
				k = 1 + rnd.Intn(30*dit)
			}
			level := 0
			if on {
				level = amp
			}
			for left := k * c.block * a.channels; left > 0; { // in some parts
				part := left
				if rnd.Intn(2) == 0 {
					part = 1 + rnd.Intn(left)
				}
				if nosy {
					part = min(left, a.channels*(1+rnd.Intn(c.block)))
				}
				do(M{"op": "write", "n": part, "amp": level})
				samples += part
				left -= part
				if nosy || left > 0 && rnd.Intn(6) == 0 {
					do(M{"op": "get", "what": "threshold"})
				}
			}
			if rnd.Intn(25) == 0 {
				set()
			}
		}
		op := []string{"close", "close", "closebusy"}[rnd.Intn(3)]
		do(M{"op": op})
		for k := 0; k < 2; k++ {
			switch rnd.Intn(4) {
			case 0:
				do(M{"op": "write", "n": 1 + rnd.Intn(3000), "amp": 0})
			case 1:
				do(M{"op": "set", "what": "debounce", "v": 2})
			case 2:
				do(M{"op": "get", "what": "maxscale"})
			case 3:
				do(M{"op": "close"})
			}
		}
	}
	vlib.Count("random audio", n)
	vlib.Count("samples", samples)
}

func TestC15(t *testing.T) {
	log.SetOutput(io.Discard)
	synctest.Test(t, func(t *testing.T) {
		for _, part := range []string{"split", "settings", "close"} {
			a := &audioDriver{c: audioConfigs[0], buffer: 16}
			vlib.LoadGraph("audio"+part).Walk("AudioDemod/"+part, a, vlib.N(20000, 100000), 200, vlib.Seconds(60, 200))
		}
		audioTrace(vlib.N(25, 150))
		vlib.Finish()
		vlib.Exit()
	})
}
