package dspt

import (
	"math"
	"math/rand"
	"testing"
	"time"

	"github.com/ftl/sdrainer/dsp"
	"vh/vlib"
)

const (
	infValue  = 9000001
	bigValue  = 16777216
	bigResult = 8000000
)

func number[T dsp.Number](v int) T {
	switch v {
	case infValue:
		return T(math.Inf(1))
	case -infValue:
		return T(math.Inf(-1))
	}
	return T(v)
}

func class(v float64, factor int) M {
	switch {
	case math.IsNaN(v):
		return M{"c": "nan", "v": 0}
	case math.IsInf(v, 1):
		return M{"c": "inf", "v": 0}
	case math.IsInf(v, -1):
		return M{"c": "ninf", "v": 0}
	}
	v = math.Round(v * float64(factor))
	if math.Abs(v) > bigResult {
		return M{"c": "big", "v": 0}
	}
	return M{"c": "fin", "v": int(v)}
}

type rolling interface {
	put(v int) M
	get() M
	reset()
}

type rollingOf[T dsp.Number] struct {
	w interface {
		Put(T) T
		Get() T
		Reset()
	}
	factor int
	vari   bool
}

func (r rollingOf[T]) put(v int) M { return r.class(r.w.Put(number[T](v))) }
func (r rollingOf[T]) get() M      { return r.class(r.w.Get()) }
func (r rollingOf[T]) class(v T) M {
	m := class(float64(v), r.factor)
	if r.vari && (m["c"] == "inf" || m["c"] == "ninf") {
		m["c"] = "nan" // the variance of a window with an infinite value is either
	}
	return m
}
func (r rollingOf[T]) reset() { r.w.Reset() }

type rollingDriver struct {
	wide bool // float64 instead of float32
	w    rolling
	h    *dsp.RollingHistory[int]
	hf   *dsp.RollingHistory[float32]
}

func (d *rollingDriver) Reset() { *d = rollingDriver{wide: d.wide} }

func fin(v int) M { return M{"c": "fin", "v": v} }

func (d *rollingDriver) Step(in M) any {
	switch in["op"] {
	case "new":
		n := vlib.Int(in["n"])
		d.w, d.h = nil, nil
		switch in["kind"] {
		case "mean":
			if d.wide {
				d.w = rollingOf[float64]{dsp.NewRollingMean[float64](n), n, false}
			} else {
				d.w = rollingOf[float32]{dsp.NewRollingMean[float32](n), n, false}
			}
		case "imean":
			d.w = rollingOf[int]{dsp.NewRollingMean[int](n), 1, false}
		case "var":
			if d.wide {
				d.w = rollingOf[float64]{dsp.NewRollingVariance[float64](n), n * n, true}
			} else {
				d.w = rollingOf[float32]{dsp.NewRollingVariance[float32](n), n * n, true}
			}
		case "hist":
			d.h = dsp.NewRollingHistory[int](n)
			d.hf = dsp.NewRollingHistory[float32](n)
		}
		return fin(0)
	case "put":
		if d.h != nil {
			d.h.Put(vlib.Int(in["v"]))
			d.hf.Put(float32(vlib.Int(in["v"])))
			return fin(0)
		}
		return d.w.put(vlib.Int(in["v"]))
	case "clear":
		if d.h != nil {
			d.h.Reset()
			d.hf.Reset()
		} else {
			d.w.reset()
		}
		return fin(0)
	case "get":
		if d.h == nil {
			return d.w.get()
		}
	}
	a, b := histQuery(d.h, in), histQuery(d.hf, in)
	if a["v"] != b["v"] && in["op"] != "mean" { // the mean of whole numbers is truncated
		return M{"c": "int and float differ", "v": b["v"]}
	}
	return a
}

func histQuery[T dsp.Number](h *dsp.RollingHistory[T], in M) M {
	var x []int
	k := 0
	if l, ok := in["x"].([]any); ok {
		for _, v := range l {
			x = append(x, vlib.Int(v))
		}
	} else if l, ok := in["x"].([]int); ok {
		x = l
	} else {
		k = vlib.Int(in["k"])
	}
	var r float64
	switch in["op"] {
	case "get":
		r = float64(h.Get(k))
	case "sum":
		r = float64(h.Sum(k))
	case "max":
		r = float64(h.Max(k))
	case "min":
		r = float64(h.Min(k))
	case "mean":
		r = float64(h.Mean(k))
		return fin(int(r))
	case "variance":
		v := h.Variance(k)
		if s := h.SDev(k); math.Abs(s*s-v) > 1e-6*(1+v) {
			return M{"c": "standard deviation is not the root of the variance", "v": 0}
		}
		r = v * float64(k*k)
	case "sumat":
		r = float64(h.SumAt(x...))
	case "maxat":
		r = float64(h.MaxAt(x...))
	case "minat":
		r = float64(h.MinAt(x...))
	}
	return class(r, 1)
}

func testRolling() {
	g := vlib.LoadGraph("rolling")
	g.Walk("Rolling/32", &rollingDriver{}, 100000, 2000, 60*time.Second)
	g.Walk("Rolling/64", &rollingDriver{wide: true}, 100000, 2000, 60*time.Second)

	tr := vlib.NewTrace("rolling.ndjson")
	rnd := rand.New(rand.NewSource(vlib.Seed))
	for n := 0; n < vlib.N(48, 400); n++ {
		kind := []string{"mean", "var", "hist", "imean"}[(n/2)%4]
		d := &rollingDriver{wide: n%2 == 1 || kind == "var"} // single precision is not exact enough for large windows
		size := []int{1, 2, 3, 5, 10, 60}[rnd.Intn(6)]
		step := func(in M) {
			vlib.ProgressStep(in)
			tr.Ev(in, d.Step(in))
		}
		vlib.Progress(M{"n": n, "wide": d.wide})
		tr.Reset(nil)
		step(M{"op": "new", "kind": kind, "n": size})
		for i := 0; i < vlib.N(3, 6)*size+40; i++ {
			v := rnd.Intn(61) - 30
			switch k := rnd.Intn(40); {
			case k == 0:
				step(M{"op": "clear"})
			case kind == "var" && k < 3:
				step(M{"op": "put", "v": []int{infValue, -infValue}[k%2]})
			case kind == "mean" && k < 4:
				step(M{"op": "put", "v": []int{infValue, -infValue, bigValue}[k%3]})
			case k < 30 || kind != "hist":
				step(M{"op": "put", "v": v})
				if kind != "hist" && k > 34 {
					step(M{"op": "get", "k": 1})
				}
			case k < 37:
				step(M{"op": []string{"get", "sum", "max", "min", "mean", "variance"}[rnd.Intn(6)], "k": 1 + rnd.Intn(size)})
			default:
				x := make([]int, 1+rnd.Intn(3))
				for i := range x {
					x[i] = 1 + rnd.Intn(size)
				}
				step(M{"op": []string{"sumat", "maxat", "minat"}[rnd.Intn(3)], "x": x})
			}
		}
	}
}

func TestC10(t *testing.T) {
	testRolling()
	vlib.Finish()
}
