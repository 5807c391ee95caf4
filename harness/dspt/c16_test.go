package dspt

import (
	"math"
	"math/rand"
	"testing"
	"time"

	"github.com/ftl/sdrainer/dsp"
	"vh/vlib"
)

type spectrumDriver struct {
	wide  bool
	peaks []dsp.Peak[float32, int]
	wpeak []dsp.Peak[float64, float64]
}

func (d *spectrumDriver) Reset() {}

func ints(v any) []int {
	switch l := v.(type) {
	case []int:
		return l
	case []any:
		r := make([]int, len(l))
		for i := range l {
			r[i] = vlib.Int(l[i])
		}
		return r
	}
	panic("not a list")
}

func block[T dsp.Number](v any) dsp.Block[T] {
	l := ints(v)
	r := make(dsp.Block[T], len(l))
	for i := range l {
		r[i] = T(l[i])
	}
	return r
}

func (d *spectrumDriver) Step(in M) any {
	if d.wide {
		return spectrumStep[float64, float64](in, &d.wpeak)
	}
	return spectrumStep[float32, int](in, &d.peaks)
}

func spectrumStep[T, F dsp.Number](in M, reuse *[]dsp.Peak[T, F]) any {
	at := func(k string) int { return vlib.Int(in[k]) }
	round := func(v float64) int { return int(math.Round(v)) }
	switch in["op"] {
	case "peaks":
		s := block[T](in["s"])
		w := at("w")
		sr := w * len(s)
		m := dsp.NewFrequencyMapping(sr, len(s), F(at("lo")+sr/2))
		*reuse = dsp.FindPeaks(*reuse, s, at("c"), T(at("thr")), m)
		r := [][]int{}
		for _, p := range *reuse {
			r = append(r, []int{p.From, p.To, int(p.FromFrequency), int(p.ToFrequency), int(p.SignalFrequency),
				round(float64(p.SignalValue) * float64(at("c"))), p.SignalBin})
		}
		return r
	case "noise":
		s := block[T](in["s"])
		mean, variance := dsp.FindNoiseFloor(s, at("edge"))
		w := (len(s) - 2*at("edge")) / 10
		return [][]int{{round(float64(mean) * float64(w)), round(variance * float64(w*w))}}
	case "sum":
		return [][]int{{round(float64(block[T](in["s"]).Sum(at("f"), at("t"))))}}
	case "mean":
		return [][]int{{round(float64(block[T](in["s"]).Mean(at("f"), at("t"))) * float64(at("t")-at("f")+1))}}
	case "max":
		v, i := block[T](in["s"]).Max(at("f"), at("t"))
		return [][]int{{round(float64(v)), i}}
	case "sub":
		b := block[T](in["s"]).Subblock(at("f"), at("t"))
		r := []int{}
		for _, v := range b {
			r = append(r, round(float64(v)))
		}
		if b.Size() != len(r) {
			return "size"
		}
		return r
	case "contains":
		p := dsp.Peak[T, F]{From: at("f"), To: at("t")}
		if p.ContainsBin(at("b")) {
			return [][]int{{1}}
		}
		return [][]int{{0}}
	case "geometry":
		p := dsp.Peak[T, F]{From: at("f"), To: at("t"), FromFrequency: F(at("ff")), ToFrequency: F(at("tf"))}
		return [][]int{{p.Width(), p.Center(), int(p.WidthHz()), int(p.CenterFrequency())}}
	}
	panic(in["op"])
}

func TestC16(t *testing.T) {
	g := vlib.LoadGraph("spectrum")
	g.Walk("Spectrum/float32", &spectrumDriver{}, 100000, 500, 60*time.Second)
	g.Walk("Spectrum/float64", &spectrumDriver{wide: true}, 100000, 500, 60*time.Second)

	tr := vlib.NewTrace("spectrum.ndjson")
	rnd := rand.New(rand.NewSource(vlib.Seed))
	d := []*spectrumDriver{{}, {wide: true}}
	vlib.Progress(M{"random": true})
	for n := 0; n < vlib.N(30, 300); n++ {
		tr.Reset(nil)
		for i := 0; i < 10; i++ {
			var in M
			s := make([]int, 1+rnd.Intn(40))
			top := 1 + rnd.Intn(40)
			c := []int{1, 2, 10, 100}[rnd.Intn(4)]
			for k := range s {
				s[k] = rnd.Intn(top*c + 1)
				if k > 0 && rnd.Intn(3) == 0 {
					s[k] = s[k-1]
				}
			}
			f := rnd.Intn(len(s))
			to := f + rnd.Intn(len(s)-f)
			switch rnd.Intn(8) {
			case 0, 1, 2, 3:
				in = M{"op": "peaks", "s": s, "c": c, "thr": rnd.Intn(top + 1), "lo": rnd.Intn(30000000), "w": 2 * (1 + rnd.Intn(200))}
			case 4, 5:
				s = make([]int, 10+rnd.Intn(30))
				for k := range s {
					s[k] = rnd.Intn(12)
				}
				in = M{"op": "noise", "s": s, "edge": rnd.Intn((len(s)-10)/2 + 1)}
			case 6:
				for k := range s {
					s[k] -= top * c / 2
				}
				in = M{"op": []string{"sum", "mean", "max", "sub"}[rnd.Intn(4)], "s": s, "f": f, "t": to}
			case 7:
				in = M{"op": "contains", "f": f, "t": to, "b": rnd.Intn(len(s)+2) - 1}
			}
			vlib.ProgressStep(in)
			tr.Ev(in, d[rnd.Intn(2)].Step(in))
		}
	}
	vlib.Finish()
}
