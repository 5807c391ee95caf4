// Package sim generates IQ data with carriers and keyed signals over noise.
package sim

import (
	"math"
	"math/rand"

	"github.com/ftl/digimodes/cw"

	"vh/vlib"
)

const NoiseLevel = 50 // of the receiver's scale, in dB

// amplitude of a carrier with the given level over the noise
func amplitude(level float64) float64 {
	return math.Pow(10, (NoiseLevel+level-120-10*math.Log10(20))/20)
}

type IQ struct {
	size  int
	Noise []complex128
	lower map[int][]complex128 // noise that is lower at the edges
	tones map[[2]float64][]complex128
	gauss [][]complex128 // blocks of random noise
}

func NewIQ(size int) *IQ {
	q := &IQ{size: size, tones: map[[2]float64][]complex128{}, lower: map[int][]complex128{}}
	q.Noise = q.noisy(0)
	return q
}

// noisy returns noise that is lower by the given level outside of 20 bins from the edges.
func (q *IQ) noisy(drop int) []complex128 {
	// it has alternating magnitudes, and phases that let the power of the carriers add to its power
	r := rand.New(rand.NewSource(99))
	noise := make([]complex128, q.size)
	for b := 0; b < q.size; b++ {
		level := 10 * math.Log10(4.0/3.0)
		if b%2 == 0 {
			level = 10 * math.Log10(2.0/3.0)
		}
		if b < 20 || b >= q.size-20 {
			level -= float64(drop)
		}
		phase := math.Pi * (0.5 + float64(r.Intn(2)))
		for n, v := range q.Tone(float64(b), level) {
			s, c := math.Sincos(phase)
			noise[n] += v * complex(c, s)
		}
	}
	return noise
}

// Tone returns a block of a carrier in the given bin (which may be a fraction).
func (q *IQ) Tone(bin float64, level float64) []complex128 {
	k := [2]float64{bin, level}
	if t, ok := q.tones[k]; ok {
		return t
	}
	a := amplitude(level)
	t := make([]complex128, q.size)
	for n := range t {
		s, c := math.Sincos(2 * math.Pi * (bin - float64(q.size/2)) * float64(n) / float64(q.size))
		t[n] = complex(a*c, a*s)
	}
	q.tones[k] = t
	return t
}

func (q *IQ) Samples(block []complex128) []float32 {
	r := make([]float32, 2*len(block))
	for i, v := range block {
		r[2*i], r[2*i+1] = float32(real(v)), float32(imag(v))
	}
	return r
}

// Keyed returns the states of the key for a text.
func Keyed(words []string, kind string) []bool {
	dit := 5
	if kind == "quick" {
		dit = 4
	}
	var r []bool
	run := func(down bool, n int, spike bool) {
		at := len(r)
		for i := 0; i < n; i++ {
			r = append(r, down)
		}
		if spike && kind == "noisy" {
			r[at+n/2-1], r[at+n/2] = !down, !down
		}
	}
	run(false, 7*dit, true)
	for i, w := range words {
		if i > 0 {
			run(false, 4*dit, true) // and a gap of three dits from the character before
		}
		for _, c := range w {
			for j, s := range cw.Code[c] {
				if j > 0 {
					run(false, dit, false)
				}
				if s == cw.Da {
					run(true, 3*dit, true)
				} else {
					run(true, dit, false)
				}
			}
			run(false, 3*dit, false)
		}
	}
	run(false, 120, false)
	return r
}

func Epochs(words []string, kind string) int { return (len(Keyed(words, kind)) + 99) / 100 }

// Sig is a signal.
type Sig struct {
	Low   int // level of the noise at the edges
	Bin   float64
	Level float64
	Key   []bool // nil: always on
}

// Block returns block i with the signals.
func (q *IQ) Block(sigs []Sig, i int, gauss bool) []float32 {
	noise := q.Noise
	for _, s := range sigs {
		if s.Low != 0 {
			if q.lower[s.Low] == nil {
				q.lower[s.Low] = q.noisy(s.Low)
			}
			noise = q.lower[s.Low]
		}
	}
	if gauss {
		if q.gauss == nil {
			for i := 0; i < 400; i++ {
				b := make([]complex128, q.size)
				a := amplitude(0) * math.Sqrt(float64(q.size)/2)
				for n := range b {
					b[n] = complex(a*vlib.Rand.NormFloat64(), a*vlib.Rand.NormFloat64())
				}
				q.gauss = append(q.gauss, b)
			}
		}
		noise = q.gauss[vlib.Rand.Intn(len(q.gauss))]
	}
	block := append([]complex128{}, noise...)
	for _, s := range sigs {
		if s.Low != 0 {
			continue
		}
		if s.Key == nil || i < len(s.Key) && s.Key[i] {
			for n, v := range q.Tone(s.Bin, s.Level) {
				block[n] += v
			}
		}
	}
	return q.Samples(block)
}
