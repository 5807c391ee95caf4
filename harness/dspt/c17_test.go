package dspt

import (
	"math/rand"
	"testing"
	"time"

	"github.com/ftl/sdrainer/dsp"
	"vh/vlib"
)

type mapping interface {
	center(f int)
	bin(b int, loc int) int
	freq(f int) int
}

type intMapping struct{ m *dsp.FrequencyMapping[int] }

func (m intMapping) center(f int) { m.m.SetCenterFrequency(f) }
func (m intMapping) bin(b int, loc int) int {
	return m.m.BinToFrequency(b, dsp.BinLocation(float64(loc)/2))
}
func (m intMapping) freq(f int) int { return m.m.FrequencyToBin(f) }

type floatMapping struct {
	m *dsp.FrequencyMapping[float64]
}

func (m floatMapping) center(f int) { m.m.SetCenterFrequency(float64(f)) }
func (m floatMapping) bin(b int, loc int) int {
	return int(m.m.BinToFrequency(b, dsp.BinLocation(float64(loc)/2)))
}
func (m floatMapping) freq(f int) int { return m.m.FrequencyToBin(float64(f)) }

type mappingDriver struct {
	float bool
	m     mapping
}

func (d *mappingDriver) Reset() { d.m = nil }
func (d *mappingDriver) Step(in M) any {
	switch in["op"] {
	case "new":
		sr, bs, c := vlib.Int(in["sr"]), vlib.Int(in["bs"]), vlib.Int(in["c"])
		if d.float {
			d.m = floatMapping{dsp.NewFrequencyMapping(sr, bs, float64(c))}
		} else {
			d.m = intMapping{dsp.NewFrequencyMapping(sr, bs, c)}
		}
	case "center":
		d.m.center(vlib.Int(in["c"]))
	case "bin":
		return d.m.bin(vlib.Int(in["b"]), vlib.Int(in["loc"]))
	case "freq":
		return d.m.freq(vlib.Int(in["f"]))
	}
	return 0
}

func TestC17(t *testing.T) {
	g := vlib.LoadGraph("freqmap")
	g.Walk("FreqMap/int", &mappingDriver{}, 100000, 1000, 60*time.Second)
	g.Walk("FreqMap/float", &mappingDriver{float: true}, 100000, 1000, 60*time.Second)

	tr := vlib.NewTrace("freqmap.ndjson")
	rnd := rand.New(rand.NewSource(vlib.Seed))
	rates := []int{8000, 11025, 12000, 12001, 24000, 44100, 48000, 96000, 192000}
	sizes := []int{4, 8, 9, 100, 128, 375, 512, 600, 1000, 1024, 2048}
	for n := 0; n < vlib.N(40, 400); n++ {
		d := &mappingDriver{float: rnd.Intn(2) == 0}
		sr, bs, c := rates[rnd.Intn(len(rates))], sizes[rnd.Intn(len(sizes))], rnd.Intn(1300000000)
		step := func(in M) int {
			vlib.ProgressStep(in)
			o := d.Step(in)
			tr.Ev(in, o)
			return o.(int)
		}
		tr.Reset(nil)
		vlib.Progress(M{"n": n})
		step(M{"op": "new", "sr": sr, "bs": bs, "c": c})
		for i := 0; i < 60; i++ {
			switch rnd.Intn(8) {
			case 0:
				c = rnd.Intn(1300000000)
				step(M{"op": "center", "c": c})
			case 1, 2, 3:
				b := rnd.Intn(bs)
				f := step(M{"op": "bin", "b": b, "loc": rnd.Intn(3) - 1})
				step(M{"op": "freq", "f": f})
			case 4, 5:
				f := step(M{"op": "bin", "b": rnd.Intn(bs), "loc": 0})
				step(M{"op": "freq", "f": f})
			default:
				step(M{"op": "freq", "f": c + rnd.Intn(2*sr) - sr})
			}
		}
	}
	vlib.Finish()
}
