package rxt

import (
	"math/rand"
	"testing"
	"time"

	"github.com/ftl/sdrainer/dsp"
	"github.com/ftl/sdrainer/rx"
	"vh/vlib"
)

// tableDriver drives a table of detected signals with a manual clock.
type tableDriver struct {
	size  int
	now   time.Time
	table *rx.PeaksTable[float32, int]
}

func (d *tableDriver) Reset() {
	d.now = time.Date(2024, 2, 28, 23, 58, 0, 0, time.UTC)
	d.table = rx.NewPeaksTable[float32, int](d.size, rx.ClockFunc(func() time.Time { return d.now }))
}

func peakOut(p *dsp.Peak[float32, int]) any {
	if p == nil {
		return []int{-1, -1, 0}
	}
	return []int{p.From, p.To, int(p.SignalValue)}
}

func (d *tableDriver) tab() any {
	r := make([]any, d.size)
	for i := range r {
		r[i] = peakOut(d.table.Get(i))
	}
	return r
}

func (d *tableDriver) Step(in M) any {
	switch in["op"] {
	case "put":
		d.table.Put(&dsp.Peak[float32, int]{From: vlib.Int(in["f"]), To: vlib.Int(in["t"]), SignalValue: float32(vlib.Int(in["v"]))})
	case "force":
		d.table.ForcePut(&dsp.Peak[float32, int]{From: vlib.Int(in["f"]), To: vlib.Int(in["t"]), SignalValue: float32(vlib.Int(in["v"]))})
	case "activate":
		d.table.Activate(d.table.Get(vlib.Int(in["b"])))
	case "deactivate":
		d.table.Deactivate(d.table.Get(vlib.Int(in["b"])))
	case "cleanup":
		d.table.Cleanup()
	case "tick":
		d.now = d.now.Add(time.Duration(vlib.Int(in["ms"])) * time.Millisecond)
	case "clear":
		d.table.Reset()
	case "find":
		return peakOut(d.table.FindNext())
	}
	return d.tab()
}

func TestC02(t *testing.T) {
	d := &tableDriver{size: 3}
	g := vlib.LoadGraph("table")
	g.Walk("PeaksTable", d, vlib.N(200000, 400000), 400, 60*time.Second)

	tr := vlib.NewTrace("table.ndjson")
	rnd := rand.New(rand.NewSource(vlib.Seed))
	id := 0
	for n := 0; n < vlib.N(40, 400); n++ {
		d := &tableDriver{size: 1 + rnd.Intn(12)}
		d.Reset()
		tr.Reset(M{"n": d.size})
		for i := 0; i < vlib.N(60, 120); i++ {
			var in M
			occupied := []int{}
			for b := 0; b < d.size; b++ {
				if d.table.Get(b) != nil {
					occupied = append(occupied, b)
				}
			}
			switch k := rnd.Intn(100); {
			case k < 30:
				f := rnd.Intn(d.size)
				to := f + rnd.Intn(3)
				if to >= d.size {
					to = d.size - 1
				}
				id++
				in = M{"op": "put", "f": f, "t": to, "v": id % 10000}
				if rnd.Intn(6) == 0 {
					in["op"] = "force"
				}
			case k < 45 && len(occupied) > 0:
				in = M{"op": "activate", "b": occupied[rnd.Intn(len(occupied))]}
			case k < 60 && len(occupied) > 0:
				in = M{"op": "deactivate", "b": occupied[rnd.Intn(len(occupied))]}
			case k < 75:
				in = M{"op": "tick", "ms": []int{1, 1000, 30000, 59999, 60000, 119999, 120000, 120001, 300000}[rnd.Intn(9)]}
			case k < 90:
				in = M{"op": "cleanup"}
			case k < 99:
				in = M{"op": "find"}
			default:
				in = M{"op": "clear"}
			}
			vlib.Progress(M{"size": d.size, "in": in})
			tr.Ev(in, d.Step(in))
		}
	}
	vlib.Finish()
}
