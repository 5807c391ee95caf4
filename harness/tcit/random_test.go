package tcit

import (
	"math/rand"

	"github.com/ftl/sdrainer/rx"
	"vh/sim"
	"vh/vlib"
)

var words = []string{"dl1abc", "k3lr", "w1aw", "g4xyz", "pa3fwm", "oh2bh", "test", "cq", "de", "5nn"}

var settings = map[string][]int{
	"silence": {30, 100, 200},
	"busy":    {150, 400},
	"thr":     {6, 15, 45},
	"deb":     {1, 3},
}

func pick[T any](r *rand.Rand, l []T) T { return l[r.Intn(len(l))] }

// randomWhole drives random behaviours of the whole process.
type randomWhole struct {
	d        *wholeDriver
	tr       *vlib.Trace
	r        *rand.Rand
	bins     []int
	listened map[int]int // bins by the listeners
	foreign  bool        // there are messages about other TRX and VFOs
	ends     bool
	settings bool
}

func (s *randomWhole) do(in M) {
	vlib.ProgressStep(in)
	out := s.d.Step(in)
	s.tr.Ev(in, out)
	vlib.Count("steps", 1)
	o, ok := out.(M)
	if !ok {
		return
	}
	for _, e := range o["ev"].([]report) {
		switch e.K {
		case "on":
			s.listened[e.ID] = e.F % 1000
		case "off":
			delete(s.listened, e.ID)
		}
	}
}

func (s *randomWhole) trx() int {
	if s.foreign && s.r.Intn(3) == 0 {
		return pick(s.r, []int{0, 2})
	}
	return 1
}

func signal(b int, k string, lv int, w []string) M {
	return M{"b": b, "k": k, "lv": lv, "w": w}
}

func (s *randomWhole) carriers() {
	l := []M{}
	for _, b := range s.bins {
		if s.r.Intn(3) == 0 {
			l = append(l, signal(b, "on", pick(s.r, []int{9, 30, 40, 50}), []string{}))
		}
	}
	s.do(M{"op": "iq", "trx": s.trx(), "sig": l, "n": 1})
}

func (s *randomWhole) send() {
	l, n := []M{}, 1
	for id := 1; id <= s.d.pool; id++ {
		b, ok := s.listened[id]
		if !ok || s.r.Intn(3) == 0 {
			continue
		}
		var w []string
		for i := s.r.Intn(4); i >= 0; i-- {
			w = append(w, pick(s.r, words))
		}
		w = append(w, "e")
		n = max(n, sim.Epochs(w, "plain"))
		l = append(l, signal(b, "plain", 40, w))
	}
	s.do(M{"op": "iq", "trx": 1, "sig": l, "n": n})
}

func (s *randomWhole) setting() {
	ks := []string{"silence", "busy", "thr", "deb"}
	k := pick(s.r, ks)
	s.do(M{"op": "set", "k": k, "v": pick(s.r, settings[k])})
}

func (s *randomWhole) run(length int) {
	r, d := s.r, s.d
	used := map[int]bool{}
	n := 1 + r.Intn(6)
	if r.Intn(6) == 0 {
		n = 20
	}
	for len(s.bins) < n {
		if b := 32 + r.Intn(440); !used[b] && !used[b-1] && !used[b+1] {
			used[b] = true
			s.bins = append(s.bins, b)
		}
	}
	s.do(M{"op": "show", "l": r.Intn(4) > 0, "s": r.Intn(4) > 0})
	for i := 0; i < length && !d.ended && !vlib.Violated(); i++ {
		x := r.Intn(100)
		switch {
		case x < 3 && s.ends && i > length/2:
			s.do(M{"op": "close", "n": pick(r, []int{0, 3, 95})})
			if r.Intn(2) == 0 {
				s.do(M{"op": "close", "n": 0})
			}
			return
		case x < 12 && s.settings:
			s.setting()
		case d.late:
			s.do(M{"op": "wait", "dial": r.Intn(2) == 0})
		case d.link == "down":
			if r.Intn(6) == 0 {
				s.do(M{"op": "wait", "dial": false})
			} else {
				s.do(M{"op": "wait", "dial": true})
			}
		case x < 18:
			s.do(M{"op": "dds", "trx": s.trx(), "c": 1 + r.Intn(3)})
		case x < 30:
			vfo := 0
			if s.foreign && r.Intn(3) == 0 {
				vfo = 1
			}
			s.do(M{"op": "if", "trx": s.trx(), "vfo": vfo, "b": pick(r, s.bins)})
		case d.link == "dialled":
			s.do(M{"op": "ready"})
		case x < 33:
			s.do(M{"op": "hangup"})
		case x < 40:
			s.do(M{"op": "wait", "dial": false})
		case x < 60 && len(s.listened) > 0:
			s.send()
		default:
			s.carriers()
		}
	}
}

func recordWhole(tr *vlib.Trace, mode rx.ReceiverMode, behaviours int, with func(*randomWhole)) {
	pool := 30
	if mode == rx.DecodeMode {
		pool = 1
	}
	d := newWholeDriver(mode, pool, words[:6])
	for n := 0; n < behaviours && !vlib.Violated(); n++ {
		vlib.Progress(M{"random": string(mode)})
		d.Reset()
		tr.Reset(nil)
		s := &randomWhole{d: d, tr: tr, r: vlib.Rand, listened: map[int]int{}}
		with(s)
		s.run(10 + vlib.Rand.Intn(30))
	}
}
