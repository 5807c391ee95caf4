package dspt

import (
	"math"
	"math/rand"
	"testing"
	"time"

	"github.com/ftl/sdrainer/cw"
	"github.com/ftl/sdrainer/dsp"
	"github.com/ftl/sdrainer/scope"
	"vh/vlib"
)

type M = vlib.M

// debounced is a debouncer in one of the places where the system uses one.
type debounced interface {
	set(t int)
	raw(v bool) bool
	close()
}

type plainDebouncer struct{ d *dsp.BoolDebouncer }

func (p plainDebouncer) set(t int)       { p.d.SetThreshold(t) }
func (p plainDebouncer) raw(v bool) bool { return p.d.Debounce(v) }
func (p plainDebouncer) close()          {}

// frameScope hands out the frames of one stream.
type frameScope struct {
	stream scope.StreamID
	frames chan map[scope.ChannelID]float64
}

func (s *frameScope) Active() bool { return true }
func (s *frameScope) ShowTimeFrame(f *scope.TimeFrame) {
	if f.Stream == s.stream {
		s.frames <- f.Values
	}
}
func (s *frameScope) ShowSpectralFrame(*scope.SpectralFrame) {}

type discard struct{}

func (discard) Write(b []byte) (int, error) { return len(b), nil }

type spectralDebouncer struct {
	d *cw.SpectralDemodulator[float32, int]
	s *frameScope
}

func newSpectralDebouncer() *spectralDebouncer {
	r := &spectralDebouncer{d: cw.NewSpectralDemodulator[float32, int](discard{}, 48000, 512),
		s: &frameScope{"demod", make(chan map[scope.ChannelID]float64, 10)}}
	r.d.SetScope(r.s)
	r.d.SetSignalDebounce(0)
	return r
}
func (p *spectralDebouncer) set(t int) { p.d.SetSignalDebounce(t) }
func (p *spectralDebouncer) raw(v bool) bool {
	if v {
		p.d.Tick(10.5, 10)
	} else {
		p.d.Tick(10, 10) // equal to the threshold is not above it
	}
	select {
	case f := <-p.s.frames:
		return f["debounced"] > 0
	default:
		vlib.Violate("the spectral demodulator shows no frame for a tick", nil)
		vlib.Exit()
		return false
	}
}
func (p *spectralDebouncer) close() {}

type audioDebouncer struct {
	d         *cw.AudioDemodulator
	s         *frameScope
	tone, off []float32
}

func newAudioDebouncer() *audioDebouncer {
	const rate, pitch = 8000, 800
	r := &audioDebouncer{d: cw.NewAudioDemodulator(discard{}, pitch, rate, 0),
		s: &frameScope{"audio", make(chan map[scope.ChannelID]float64, 10)}}
	n := r.d.Blocksize()
	r.tone = make([]float32, n)
	r.off = make([]float32, n)
	for i := range r.tone {
		r.tone[i] = float32(math.Sin(2 * math.Pi * pitch * float64(i) / rate))
	}
	r.d.SetScope(r.s)
	r.d.SetDebounceThreshold(0)
	return r
}
func (p *audioDebouncer) set(t int) { p.d.SetDebounceThreshold(t) }
func (p *audioDebouncer) raw(v bool) bool {
	if v {
		p.d.Write(p.tone)
	} else {
		p.d.Write(p.off)
	}
	select {
	case f := <-p.s.frames:
		return f["debounced"] > 0
	case <-time.After(20 * time.Second):
		vlib.Violate("the audio demodulator does not process a block", nil)
		vlib.Exit()
		return false
	}
}
func (p *audioDebouncer) close() { p.d.Close() }

type debounceDriver struct {
	mk      func() debounced
	initial int
	d       debounced
}

func (w *debounceDriver) Reset() {
	if w.d != nil {
		w.d.close()
	}
	w.d = w.mk()
	w.d.set(w.initial)
}

func (w *debounceDriver) Step(in M) any {
	if in["op"] == "set" {
		w.d.set(vlib.Int(in["t"]))
		return false
	}
	return w.d.raw(in["v"].(bool))
}

func TestC14(t *testing.T) {
	kinds := []struct {
		name string
		mk   func() debounced
	}{
		{"debouncer", func() debounced { return plainDebouncer{dsp.NewBoolDebouncer(0)} }},
		{"spectral", func() debounced { return newSpectralDebouncer() }},
		{"audio", func() debounced { return newAudioDebouncer() }},
	}
	g := vlib.LoadGraph("debounce")
	for _, k := range kinds {
		g.Walk("debounce/"+k.name, &debounceDriver{mk: k.mk, initial: 4}, 20000, 300, 60*time.Second)
	}
	tr := vlib.NewTrace("debounce.ndjson")
	rnd := rand.New(rand.NewSource(vlib.Seed))
	for n := 0; n < vlib.N(60, 600); n++ {
		k := kinds[n%len(kinds)]
		th := []int{0, 1, 2, 3, 5, 8, 13}[rnd.Intn(7)]
		vlib.Progress(M{"kind": k.name, "threshold": th, "n": n})
		d := k.mk()
		if k.name == "debouncer" && n%2 == 0 {
			d = plainDebouncer{dsp.NewBoolDebouncer(th)}
		} else {
			d.set(th)
		}
		tr.Reset(M{"t": th, "kind": k.name})
		for i := 0; i < vlib.N(60, 120); {
			if rnd.Intn(12) == 0 && n%3 == 0 {
				th = rnd.Intn(9)
				d.set(th)
				tr.Ev(M{"op": "set", "t": th}, false)
			}
			v := rnd.Intn(2) == 0
			for run := 1 + rnd.Intn(th+3); run > 0; run-- {
				tr.Ev(M{"op": "raw", "v": v}, d.raw(v))
				i++
			}
		}
		d.close()
	}
	vlib.Finish()
}
