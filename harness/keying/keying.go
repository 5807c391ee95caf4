// Package keying drives Morse decoders with runs of key states.
package keying

import (
	"bytes"
	"math/rand"

	"github.com/ftl/digimodes/cw"
	code "github.com/ftl/sdrainer/cw"
	"vh/vlib"
)

type M = vlib.M

// Key is something that decodes a key.
type Key interface {
	Tick(down bool)
	Reset()
	Debounce(n int)
	// Text returns what was decoded since the last call.
	Text() []rune
}

type sink struct{ b bytes.Buffer }

func (s *sink) Write(b []byte) (int, error) { return s.b.Write(b) }
func (s *sink) Text() []rune {
	r := []rune(s.b.String())
	s.b.Reset()
	return r
}

type plain struct {
	sink
	d *code.Decoder
}

// Plain is the decoder itself.
func Plain(rate, block int) Key {
	p := &plain{}
	p.d = code.NewDecoder(&p.sink, rate, block)
	return p
}
func (p *plain) Tick(down bool) { p.d.Tick(down) }
func (p *plain) Reset()         { p.d.Reset() }
func (p *plain) Debounce(n int) { panic("no debounce") }

type spectral struct {
	sink
	d *code.SpectralDemodulator[float32, float32]
}

// Spectral is a decoder behind the spectral demodulator.
func Spectral(rate, block int) Key {
	p := &spectral{}
	p.d = code.NewSpectralDemodulator[float32, float32](&p.sink, rate, block)
	return p
}
func (p *spectral) Tick(down bool) {
	if down {
		p.d.Tick(-19.5, -20)
	} else {
		p.d.Tick(-20, -20)
	}
}
func (p *spectral) Reset()         { p.d.Reset() }
func (p *spectral) Debounce(n int) { p.d.SetSignalDebounce(n) }

// Driver performs the inputs of the specification Decoder.
type Driver struct {
	Make func() Key
	K    Key
}

func (d *Driver) Reset() { d.K = d.Make() }
func (d *Driver) Step(in M) any {
	out := [][2]int{}
	switch in["op"] {
	case "run":
		down := in["key"].(bool)
		n := vlib.Int(in["n"])
		for i := 1; i <= n; i++ {
			d.K.Tick(down)
			for _, r := range d.K.Text() {
				out = append(out, [2]int{i, int(r)})
			}
		}
	case "restart":
		d.K.Reset()
		for _, r := range d.K.Text() {
			out = append(out, [2]int{0, int(r)})
		}
	case "debounce":
		d.K.Debounce(vlib.Int(in["n"]))
	}
	return out
}

// A Run is n ticks with the key up or down.
type Run struct {
	Down bool
	N    int
}

// Symbols returns the durations of the marks of a character in dits.
func Symbols(r rune) []int {
	var l []int
	for _, s := range cw.Code[r] {
		if s == cw.Dit {
			l = append(l, 1)
		} else {
			l = append(l, 3)
		}
	}
	return l
}

// Alphabet returns all characters of the Morse code.
func Alphabet() []rune {
	var l []rune
	for r := rune(1); r < 0x300; r++ {
		if _, ok := cw.Code[r]; ok && r != ' ' {
			l = append(l, r)
		}
	}
	return l
}

// Send keys a text; dur gives the duration of x dits in ticks.
func Send(text []rune, dur func(x int) int) []Run {
	var r []Run
	gap := 0
	for _, c := range text {
		if c == ' ' {
			gap = 7
			continue
		}
		for _, s := range Symbols(c) {
			if gap > 0 {
				r = append(r, Run{false, dur(gap)})
			}
			r = append(r, Run{true, dur(s)})
			gap = 1
		}
		gap = 3
	}
	return r
}

// RandomText returns words with one blank in between.
func RandomText(rnd *rand.Rand, n int) []rune {
	a := Alphabet()
	switch rnd.Intn(4) {
	case 0:
		a = []rune("et")
	case 1:
		a = []rune("eitmsho05aeinrtd")
	case 2:
		a = a[rnd.Intn(len(a)):][:1]
	}
	var r []rune
	for len(r) < n {
		for k := 1 + rnd.Intn([]int{1, 3, 8}[rnd.Intn(3)]); k > 0; k-- {
			r = append(r, a[rnd.Intn(len(a))])
		}
		r = append(r, ' ')
	}
	return r[:len(r)-1]
}
