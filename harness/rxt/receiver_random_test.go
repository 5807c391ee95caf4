package rxt

import (
	"math/rand"
	"sort"

	"github.com/ftl/sdrainer/rx"
	"vh/sim"
	"vh/vlib"
)

// profile tells how often something is done in the random behaviours.
type profile struct {
	signals  int // number of different signals
	settings []string
	vfo      bool
	held     bool
	crowd    bool // there are more signals than listeners
	steady   bool // one signal after the other begins, and stays
	keyed    int
	ticks    []int
	bins     func(size int) []int // the bins of the signals
	levels   []int
	offset   bool // signals are not in the center of their bins
	gauss    bool // random noise
	gaps     bool
	midway   bool // time also passes in the middle of epochs
}

var words = []string{"dl1abc", "k3lr", "w1aw", "g4xyz", "pa3fwm", "oh2bh", "test", "cq", "de", "5nn"}

var values = map[string][]any{
	"silence": {1, 5, 20, 40},
	"busy":    {3, 30, 120, 200},
	"thr":     {6, 15},
	"scope":   {"none", "A", "B"},
	"center":  {0, 1, 2},
}

// recordReceiver records random behaviours of a receiver.
func recordReceiver(tr *vlib.Trace, mode rx.ReceiverMode, p profile, behaviours, length int) {
	d := newRxDriver(mode)
	r := vlib.Rand
	for n := 0; n < behaviours && !vlib.Violated(); n++ {
		vlib.Progress(M{"random": string(mode)})
		d.Reset()
		tr.Reset(nil)
		s := &randomReceiver{d: d, tr: tr, r: r, p: p, size: 1 + r.Intn(2), listened: map[int]int{}, tails: map[int]string{}, mute: map[int]bool{}}
		s.run(length)
	}
}

type randomReceiver struct {
	d        *rxDriver
	tr       *vlib.Trace
	r        *rand.Rand
	p        profile
	size     int
	bins     []int
	running  bool
	listened map[int]int // bins by the listeners
	tails    map[int]string
	deb      int
	vfoBin   int
	offsets  map[int]int
	fed      int
	mute     map[int]bool // listeners that heard something that was no text
}

func (s *randomReceiver) do(in M) {
	vlib.ProgressStep(in)
	out := s.d.Step(in)
	s.tr.Ev(in, out)
	vlib.Count("steps", 1)
	o, ok := out.(M)
	if !ok {
		return
	}
	for _, e := range o["ev"].([]report) {
		switch e.K {
		case "on":
			s.listened[e.ID] = e.F % 1000
			delete(s.tails, e.F%1000)
			delete(s.mute, e.ID)
		case "off":
			delete(s.listened, e.ID)
		}
	}
}

func pick[T any](r *rand.Rand, l []T) T { return l[r.Intn(len(l))] }

func (s *randomReceiver) run(length int) {
	r, p := s.r, s.p
	used := map[int]bool{}
	spread := sizes[s.size][1]
	n := p.signals
	if p.bins != nil {
		s.bins = p.bins(s.size)
	}
	s.d.gauss = p.gauss
	s.offsets = map[int]int{}
	for _, b := range s.bins {
		if p.offset {
			s.offsets[b] = r.Intn(61) - 30
		}
	}
	if p.crowd {
		n = 34
	}
	for p.bins == nil && len(s.bins) < n {
		b := 32 + r.Intn(spread-40)
		if p.crowd {
			b = 20 + 3*len(s.bins)
		}
		if !used[b] && (p.crowd || !used[b-1] && !used[b+1]) {
			used[b] = true
			s.bins = append(s.bins, b)
		}
	}
	if p.steady {
		sort.Ints(s.bins)
	}
	s.deb = 1
	if r.Intn(2) == 0 || p.gauss { // (peaks of random noise count as short marks)
		s.deb = 3
		s.do(M{"op": "set", "k": "deb", "v": 3})
	}
	for _, k := range p.settings {
		if r.Intn(2) == 0 {
			s.do(M{"op": "set", "k": k, "v": pick(r, values[k])})
		}
	}
	s.start()
	for i := 0; i < length && !s.d.ended && !vlib.Violated(); i++ {
		switch x := r.Intn(100); {
		case x < 3 && s.running:
			s.running = false
			s.do(M{"op": "stop"})
		case x < 5 || !s.running && x < 40:
			s.start()
		case x < 15 && len(p.settings) > 0:
			k := pick(r, p.settings)
			if k == "scope" || s.running || r.Intn(3) == 0 {
				s.do(M{"op": "set", "k": k, "v": pick(r, values[k])})
			}
		case x < 30 && p.vfo:
			s.vfoBin = pick(r, s.bins)
			if r.Intn(5) == 0 || s.muted(s.vfoBin) {
				s.vfoBin = s.nobody(s.vfoBin)
			}
			s.do(M{"op": "vfo", "b": s.vfoBin})
		case x < 33 && p.gaps && s.running:
			s.gap()
		case x < 45:
			s.do(M{"op": "tick", "d": pick(r, p.ticks)})
		case x < 52:
			s.do(M{"op": "cleanup"})
		case x < 52+p.keyed && s.running && len(s.listened) > 0:
			s.send()
		default:
			s.carriers()
		}
	}
	if r.Intn(2) == 0 {
		s.do(M{"op": "stop"})
	}
}

func (s *randomReceiver) start() {
	size := s.size
	if s.running {
		size = 3 - size // makes no difference
	}
	s.running = true
	s.do(M{"op": "start", "size": size})
}

func (s *randomReceiver) signal(b int, k string, lv int, w []string) M {
	m := M{"b": b, "k": k, "lv": lv, "w": w}
	if o := s.offsets[b]; o != 0 {
		m["o"] = o
	}
	return m
}

// gap is only for listeners that are not in the middle of a word.
func (s *randomReceiver) gap() {
	for _, b := range s.listened {
		if s.tails[b] != "" {
			return
		}
	}
	if s.p.vfo { // what is heard during the gap must not be printed
		s.vfoBin = s.nobody(s.bins[0])
		s.do(M{"op": "vfo", "b": s.vfoBin})
	}
	s.do(M{"op": "gap", "n": 1 + s.r.Intn(300)})
	for id := range s.listened {
		s.mute[id] = true
	}
}

// nobody returns a bin nearby where no signal is.
func (s *randomReceiver) nobody(bin int) int {
	away := 1
	if s.p.offset { // a signal that is not in the center of its bin shows in the neighbours, too
		away = 5
	}
	if bin >= 100 {
		away = -away
	}
	return bin + away
}

// muted reports whether a listener in this bin heard something that was no text.
func (s *randomReceiver) muted(bin int) bool {
	for id, b := range s.listened {
		if b == bin && s.mute[id] {
			return true
		}
	}
	return false
}

func (s *randomReceiver) carriers() {
	l := []M{}
	for i, b := range s.bins {
		if s.p.steady {
			if i <= s.fed {
				l = append(l, s.signal(b, "on", 40, []string{}))
			}
			continue
		}
		if s.r.Intn(3) == 0 || s.p.crowd && s.r.Intn(3) > 0 {
			levels := []int{9, 30, 40, 50}
			if s.p.levels != nil {
				levels = s.p.levels
			}
			l = append(l, s.signal(b, "on", pick(s.r, levels), []string{}))
		}
	}
	if s.running && s.p.midway && s.r.Intn(4) == 0 {
		s.do(M{"op": "midway", "sig": l, "d": pick(s.r, s.p.ticks), "k": 20 + s.r.Intn(80)})
		return
	}
	s.do(M{"op": "feed", "sig": l, "n": 1})
	s.fed++
}

func (s *randomReceiver) send() {
	var ids []int
	for id := 1; id <= 30; id++ {
		if _, ok := s.listened[id]; ok && !s.mute[id] {
			ids = append(ids, id)
		}
	}
	kind := "plain"
	if s.deb == 3 && !s.p.gauss {
		kind = "noisy"
	}
	if s.p.held && s.r.Intn(4) == 0 {
		clean := true
		for _, b := range s.listened {
			clean = clean && s.tails[b] == ""
		}
		b := s.listened[pick(s.r, ids)]
		w := []string{pick(s.r, words[:6]), "e"}
		if clean {
			s.tails[b] = ""
			s.do(M{"op": "held", "sig": []M{{"b": b, "k": kind, "lv": 40, "w": w}}, "n": sim.Epochs(w, kind), "d": pick(s.r, s.p.ticks)})
			return
		}
	}
	l := []M{}
	n := 1
	if len(ids) == 0 {
		return
	}
	count := 1 + s.r.Intn(2)
	for i := 0; i < count && len(ids) > 0; i++ {
		at := s.r.Intn(len(ids))
		b := s.listened[ids[at]]
		ids = append(ids[:at], ids[at+1:]...)
		var w []string
		for len(w) == 0 || s.r.Intn(3) > 0 && len(w) < 4 {
			if s.r.Intn(3) == 0 {
				w = append(w, words[b%6]) // its own callsign
			} else {
				w = append(w, pick(s.r, words))
			}
		}
		if s.r.Intn(2) == 0 {
			w = append(w, "e")
		}
		n = max(n, sim.Epochs(w, kind))
		s.tails[b] = ""
		for _, c := range words[:6] {
			if w[len(w)-1] == c {
				s.tails[b] = c
			}
		}
		level := 40
		if s.p.offset {
			level = 30
		}
		l = append(l, s.signal(b, kind, level, w))
	}
	s.do(M{"op": "feed", "sig": l, "n": n})
}
