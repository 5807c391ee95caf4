package rxt

import (
	"io"
	"log"
	"math"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/scope"
	"vh/sim"
	"vh/vlib"
)

// gateScope records the values that the listener gets, and can be stuck.
type gateScope struct {
	mu     sync.Mutex
	values []float64
	gate   chan struct{}
}

func (s *gateScope) Active() bool { return true }
func (s *gateScope) ShowTimeFrame(f *scope.TimeFrame) {
	v, ok := f.Values["value"]
	if f.Stream != "demod" || !ok {
		return
	}
	s.mu.Lock()
	s.values = append(s.values, v)
	gate := s.gate
	s.mu.Unlock()
	if gate != nil {
		<-gate
	}
}
func (s *gateScope) ShowSpectralFrame(f *scope.SpectralFrame) {}

const labels = 300 // per letter

// feedDriver delivers blocks that are told apart by the level of the signal at the VFO.
type feedDriver struct {
	r     *rx.Receiver[float32, int]
	s     *gateScope
	bin   int
	clean map[int][]complex128
	ended bool
}

func levelOf(label int) float64 { return 20 + 0.05*float64(label) }

func (d *feedDriver) block(size, label int) []float32 {
	n := sizes[size][1]
	if d.clean[size] == nil {
		d.clean[size] = sim.NewIQ(n).Tone(float64(n/2+d.bin), 0)
	}
	a := math.Pow(10, levelOf(label)/20)
	r := make([]float32, 2*n)
	for i, v := range d.clean[size] {
		r[2*i], r[2*i+1] = float32(a*real(v)), float32(a*imag(v))
	}
	// other signals, so that every sample matters
	for i, v := range newTone(n, n/2+d.bin+7) {
		r[2*i] += float32(real(v))
		r[2*i+1] += float32(imag(v))
	}
	return r
}

var tones = map[[2]int][]complex128{}

func newTone(n, bin int) []complex128 {
	k := [2]int{n, bin}
	if tones[k] == nil {
		tones[k] = sim.NewIQ(n).Tone(float64(bin), 45)
	}
	return tones[k]
}

func (d *feedDriver) bounded(f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	t := time.NewTimer(time.Minute)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		d.ended = true
		return false
	}
}

func (d *feedDriver) open() {
	d.s.mu.Lock()
	defer d.s.mu.Unlock()
	if d.s.gate != nil {
		close(d.s.gate)
		d.s.gate = nil
	}
}

func (d *feedDriver) Reset() {
	if d.r != nil && !d.ended {
		d.open()
		d.bounded(d.r.Stop)
	}
	d.ended = false
	d.bin = pick(vlib.Rand, []int{-50, -20, -1, 0, 1, 13, 40})
	d.clean = map[int][]complex128{}
	d.s = &gateScope{}
	d.r = rx.NewReceiver[float32, int]("", rx.DecodeMode, nil)
	d.r.SetEdgeWidth(4)
	d.r.SetCenterFrequency(frequency0)
	d.r.SetScope(d.s)
	d.r.SetVFOOffset(int(math.Round(float64(d.bin) * 93.75)))
}

// shown returns the blocks that were processed, as runs.
func (d *feedDriver) shown() any {
	d.s.mu.Lock()
	defer d.s.mu.Unlock()
	r := [][]int{}
	for _, v := range d.s.values {
		label := int(math.Round((v - sim.NoiseLevel - 20) / 0.05))
		if math.Abs(v-sim.NoiseLevel-levelOf(label)) > 0.01 || label < 1 || label > 2*labels {
			return []any{"a block that was not delivered", v, label}
		}
		letter, at := (label-1)/labels, (label-1)%labels+1
		if n := len(r); n > 0 && r[n-1][0] == letter && r[n-1][2] == at-1 {
			r[n-1][2] = at
		} else {
			r = append(r, []int{letter, at, at})
		}
	}
	d.s.values = nil
	return r
}

func (d *feedDriver) Step(in M) any {
	if d.ended {
		return "stuck"
	}
	ok := true
	switch op := vlib.Str(in["op"]); op {
	case "start":
		s := sizes[vlib.Int(in["size"])]
		ok = d.bounded(func() { d.r.Start(s[0], s[1]) })
	case "stop":
		ok = d.bounded(d.r.Stop)
	case "stall":
		d.s.mu.Lock()
		if d.s.gate == nil {
			d.s.gate = make(chan struct{})
		}
		d.s.mu.Unlock()
	case "resume":
		d.open()
	case "give":
		rate, size, v, n := sizes[vlib.Int(in["rate"])][0], vlib.Int(in["size"]), vlib.Int(in["v"]), vlib.Int(in["n"])
		for i := 1; i <= n && ok; i++ {
			var b []float32
			switch size {
			case 3:
				b = d.block(1, v*labels+i)
				b = b[:len(b)-2]
			case 4:
			default:
				b = d.block(size, v*labels+i)
			}
			before := time.Now()
			ok = d.bounded(func() { d.r.IQData(rate, b) })
			if time.Since(before) > 0 {
				return "the delivery of a block took a while"
			}
			// the receiver takes the first block out of the queue
			if i == 1 || i%60 == 0 {
				synctest.Wait()
			}
		}
	default:
		panic(op)
	}
	if !ok {
		return "stuck"
	}
	synctest.Wait()
	return d.shown()
}

func TestC09(t *testing.T) {
	log.SetOutput(io.Discard)
	synctest.Test(t, func(t *testing.T) {
		vlib.LoadGraph("rxfeed").Walk("RxFeed", &feedDriver{}, 1<<30, 30, vlib.Seconds(60, 300))
		tr := vlib.NewTrace("rxfeed.ndjson")
		d := &feedDriver{}
		r := vlib.Rand
		for n := vlib.N(4, 40); n > 0 && !vlib.Violated(); n-- {
			d.Reset()
			tr.Reset(nil)
			stalled, stuck, running := false, false, 0
			do := func(in M) {
				vlib.ProgressStep(in)
				tr.Ev(in, d.Step(in))
				vlib.Count("steps", 1)
			}
			for i := 0; i < 60 && !d.ended; i++ {
				switch x := r.Intn(20); {
				case x < 2:
					z := 1 + r.Intn(2)
					if running == 0 {
						running = z
					}
					do(M{"op": "start", "size": z})
				case x == 2 && !stuck:
					running = 0
					do(M{"op": "stop"})
				case x < 6 && !stalled:
					stalled = true
					do(M{"op": "stall"})
				case x < 9 && stalled:
					stalled, stuck = false, false
					do(M{"op": "resume"})
				default:
					rate, size := running, running
					if running == 0 || r.Intn(6) == 0 {
						rate, size = 1+r.Intn(2), 1+r.Intn(4)
					}
					stuck = stuck || running > 0 && stalled && rate == running && size == running
					do(M{"op": "give", "rate": rate, "size": size, "v": r.Intn(2), "n": 1 + r.Intn(1+r.Intn(labels))})
				}
			}
		}
		vlib.Exit()
	})
}
