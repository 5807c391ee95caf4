package rxt

import (
	"bytes"
	"math/rand"
	"time"

	"github.com/ftl/sdrainer/dsp"
	"github.com/ftl/sdrainer/rx"
	"vh/keying"
	"vh/vlib"
)

type nobody struct{}

func (nobody) ListenerActivated(string, int)                 {}
func (nobody) ListenerDeactivated(string, int)               {}
func (nobody) CallsignDecoded(string, string, int, int, int) {}
func (nobody) CallsignSpotted(string, string, int)           {}
func (nobody) SpotTimeout(string, string, int)               {}

// listenerKey is the decoder of a listener; it starts anew with each attachment.
type listenerKey struct {
	l *rx.Listener[float32, int]
	b bytes.Buffer
	n int
}

func newListenerKey() keying.Key {
	k := &listenerKey{}
	now := time.Date(2024, 2, 28, 23, 58, 0, 0, time.UTC)
	k.l = rx.NewListener[float32, int]("l1", &k.b, rx.ClockFunc(func() time.Time { return now }), nobody{}, 48000, 512)
	k.Reset()
	return k
}

func (k *listenerKey) Tick(down bool) {
	if down {
		k.l.Listen(-19.5, -20)
	} else {
		k.l.Listen(-20, -20)
	}
}

func (k *listenerKey) Reset() {
	k.n++
	if k.n%3 == 0 {
		k.l.Detach()
		k.l.Listen(0, -20)
		k.l.Listen(0, -20)
	}
	k.l.Attach(&dsp.Peak[float32, int]{From: k.n, To: k.n + 4, SignalFrequency: 7000000 + k.n})
}

func (k *listenerKey) Debounce(n int) { k.l.SetSignalDebounce(n) }

func (k *listenerKey) Text() []rune {
	r := []rune(k.b.String())
	k.b.Reset()
	return r
}

// resetTrace restarts decoders in the middle of random keyings.
func resetTrace(n int) {
	tr := vlib.NewTrace("decoder.ndjson")
	rnd := rand.New(rand.NewSource(vlib.Seed*9973 + 1))
	for i := 0; i < n; i++ {
		kind := rnd.Intn(3)
		d := &keying.Driver{Make: decoders[kind].mk}
		d.Reset()
		tr.Reset(M{"dit": 6, "kind": decoders[kind].name})
		vlib.Progress(M{"random keying": i, "kind": decoders[kind].name})
		do := func(in M) {
			vlib.ProgressStep(in)
			tr.Ev(in, d.Step(in))
		}
		for part := 2 + rnd.Intn(6); part > 0; part-- {
			runs := keying.Send(keying.RandomText(rnd, 1+rnd.Intn(12)), func(x int) int { return x * (4 + rnd.Intn(4)) })
			for _, r := range runs[:1+rnd.Intn(len(runs))] {
				if rnd.Intn(6) == 0 {
					r.N = 1 + rnd.Intn(90)
				}
				do(M{"op": "run", "key": r.Down, "n": r.N})
			}
			do(M{"op": "restart"})
			if kind > 0 && rnd.Intn(3) == 0 {
				do(M{"op": "debounce", "n": 1 + rnd.Intn(4)})
			}
		}
	}
	vlib.Count("random keyings", n)
}

var decoders = []struct {
	name string
	mk   func() keying.Key
}{
	{"decoder", func() keying.Key { return keying.Plain(48000, 512) }},
	{"demodulator", func() keying.Key { return keying.Spectral(12000, 128) }},
	{"listener", newListenerKey},
}
