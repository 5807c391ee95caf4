package cwt

import (
	"math/rand"
	"testing"

	"vh/keying"
	"vh/vlib"
)

type M = vlib.M

// randomRuns makes a keying of some kind.
func randomRuns(rnd *rand.Rand, dit, n int) []keying.Run {
	var runs []keying.Run
	switch rnd.Intn(4) {
	case 0: // regular, with the occasional mishap
		d := dit - 2 + rnd.Intn(5)
		if d < 1 {
			d = 1
		}
		runs = keying.Send(keying.RandomText(rnd, n/8+1), func(x int) int { return x * d })
		for i := range runs {
			switch rnd.Intn(25) {
			case 0:
				runs[i].N = 1 + rnd.Intn(6*dit)
			case 1:
				runs[i].N = 1 + rnd.Intn(25*dit)
			}
		}
	case 1: // human, with a speed that drifts
		f := 0.3 + rnd.Float64()*2
		runs = keying.Send(keying.RandomText(rnd, n/8+1), func(x int) int {
			f *= 0.97 + rnd.Float64()*0.06
			k := int(float64(x*dit)*f*(0.7+rnd.Float64()*0.6) + 0.5)
			if k < 1 {
				k = 1
			}
			if k > 700 {
				k = 700
			}
			return k
		})
	default: // anything
		max := []int{3, 2 * dit, 5 * dit, 12 * dit, 300}[rnd.Intn(5)]
		for i := 0; i < n; i++ {
			k := 1 + rnd.Intn(max)
			if rnd.Intn(30) == 0 {
				k = 1 + rnd.Intn(700)
			}
			runs = append(runs, keying.Run{Down: i%2 == 0, N: k})
		}
	}
	if rnd.Intn(2) == 0 {
		runs = append([]keying.Run{{Down: false, N: 1 + rnd.Intn(200)}}, runs...)
	}
	return runs
}

var rates = []struct{ rate, block, dit int }{{48000, 512, 6}, {12000, 128, 6}, {8000, 80, 6}, {48000, 256, 12}, {48000, 1024, 3}, {44100, 512, 6}, {100, 1, 6}, {8000, 100, 5}}

func decoderTrace(n int) {
	tr := vlib.NewTrace("decoder.ndjson")
	rnd := rand.New(rand.NewSource(vlib.Seed*104729 + 13))
	ticks := 0
	for i := 0; i < n; i++ {
		r := rates[rnd.Intn(len(rates))]
		behind := rnd.Intn(2) == 0
		d := &keying.Driver{Make: func() keying.Key {
			if behind {
				return keying.Spectral(r.rate, r.block)
			}
			return keying.Plain(r.rate, r.block)
		}}
		d.Reset()
		tr.Reset(M{"dit": r.dit, "demodulator": behind})
		vlib.Progress(M{"random keying": i, "rate": r.rate, "block": r.block, "demodulator": behind})
		do := func(in M) {
			vlib.ProgressStep(in)
			tr.Ev(in, d.Step(in))
		}
		for part := 1 + rnd.Intn(3); part > 0; part-- {
			if behind && rnd.Intn(2) == 0 {
				do(M{"op": "restart"})
				do(M{"op": "debounce", "n": 1 + rnd.Intn(5)})
			}
			for _, run := range randomRuns(rnd, r.dit, 10+rnd.Intn(60)) {
				do(M{"op": "run", "key": run.Down, "n": run.N})
				ticks += run.N
			}
			if rnd.Intn(3) == 0 {
				do(M{"op": "restart"})
			} else if rnd.Intn(2) == 0 {
				do(M{"op": "run", "key": false, "n": 600})
			}
		}
	}
	vlib.Count("random keyings", n)
	vlib.Count("ticks", ticks)
}

func TestC13(t *testing.T) {
	for _, k := range []struct {
		name string
		mk   func() keying.Key
	}{
		{"decoder", func() keying.Key { return keying.Plain(48000, 512) }},
		{"demodulator", func() keying.Key { return keying.Spectral(12000, 128) }},
	} {
		vlib.LoadGraph("decoder").Walk("Decoder/"+k.name, &keying.Driver{Make: k.mk}, vlib.N(100000, 400000), 300, vlib.Seconds(60, 200))
	}
	decoderTrace(vlib.N(60, 300))
	vlib.Finish()
}

// sendText keys a whole text.
func sendText(d keying.Key, text []rune, dur func(x int) int, pause int) []int {
	out := []int{}
	tick := func(down bool, n int) {
		for i := 0; i < n; i++ {
			d.Tick(down)
			for _, r := range d.Text() {
				out = append(out, int(r))
			}
		}
	}
	for _, r := range keying.Send(text, dur) {
		tick(r.Down, r.N)
	}
	tick(false, pause)
	return out
}

func TestC12(t *testing.T) {
	tr := vlib.NewTrace("keying.ndjson")
	rnd := rand.New(rand.NewSource(vlib.Seed*15485863 + 7))
	chars := 0
	for i := 0; i < vlib.N(400, 4000) && !vlib.Violated(); i++ {
		var d keying.Key
		r := rates[i%2]
		if i%3 == 0 {
			d = keying.Spectral(r.rate, r.block)
		} else {
			d = keying.Plain(r.rate, r.block)
		}
		tr.Reset(nil)
		if rnd.Intn(3) == 0 { // used before
			for _, run := range randomRuns(rnd, 6, 20) {
				for k := 0; k < run.N; k++ {
					d.Tick(run.Down)
				}
			}
			for k := 0; k < 600; k++ {
				d.Tick(false)
			}
			d.Reset()
			d.Text()
		}
		lead := []int{0, 0, 100, 300, 700}[rnd.Intn(5)]
		if i == 2 {
			lead = 20_000_000 // two days
		}
		for k := 0; k < lead; k++ {
			d.Tick(false)
		}
		dit := 16 * (4 + rnd.Intn(5))
		if rnd.Intn(2) == 0 {
			dit = fractions[rnd.Intn(len(fractions))]
		}
		mode := rnd.Intn(3)
		phase := rnd.Intn(16)
		dur := func(x int) int {
			switch mode {
			case 0: // each edge at the next tick
				e := phase + x*dit
				phase = e % 16
				return e / 16
			case 1: // any rounding
				if rnd.Intn(2) == 0 {
					return x * dit / 16
				}
				return (x*dit + 15) / 16
			}
			return (x*dit + 8) / 16
		}
		for part := 1 + rnd.Intn(3); part > 0; part-- {
			n := []int{3, 10, 40, 120}[rnd.Intn(4)]
			text := keying.RandomText(rnd, n)
			chars += len(text)
			in := M{"op": "send", "text": ints(text), "dit16": dit, "rounding": mode, "lead": lead}
			vlib.Progress(in)
			tr.Ev(in, sendText(d, text, dur, 600))
		}
	}
	vlib.Count("characters", chars)
	vlib.Finish()
}

func ints(t []rune) []int {
	r := []int{}
	for _, c := range t {
		r = append(r, int(c))
	}
	return r
}

// fractions are the speeds (sixteenths of a tick per dit) for which the specification (MC_Jitter) shows that rounding does no harm.
var fractions = func() []int {
	r := []int{72, 73}
	for s := 75; s <= 113; s++ {
		if s != 85 {
			r = append(r, s)
		}
	}
	return r
}()
