package rxt

import (
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/scope"
	"vh/sim"
	"vh/vlib"
)

// ---- IQ data ----

// sizes are the rates and block sizes that a receiver can be started with; both have the same ticks.
var sizes = map[int][2]int{1: {12000, 128}, 2: {24000, 256}}

// ---- the user of the reports ----

type report struct {
	K  string `json:"k"`
	ID int    `json:"id"`
	F  int    `json:"f"`
	C  string `json:"c"`
	N  int    `json:"n"`
}

type rawReport struct {
	k, name string
	f       int
	c       string
	n, w    int
}

type reporter struct {
	mu   sync.Mutex
	list []rawReport
	hold chan struct{}
}

func (r *reporter) add(e rawReport) {
	r.mu.Lock()
	r.list = append(r.list, e)
	hold := r.hold
	r.mu.Unlock()
	if hold != nil && e.k == "dec" {
		<-hold
	}
}
func (r *reporter) take() []rawReport {
	r.mu.Lock()
	defer r.mu.Unlock()
	l := r.list
	r.list = nil
	return l
}
func (r *reporter) count(k string) int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	var n int64
	for _, e := range r.list {
		if e.k == k {
			n++
		}
	}
	return n
}
func (r *reporter) setHold(c chan struct{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.hold = c
}
func (r *reporter) ListenerActivated(l string, f int)   { r.add(rawReport{k: "on", name: l, f: f}) }
func (r *reporter) ListenerDeactivated(l string, f int) { r.add(rawReport{k: "off", name: l, f: f}) }
func (r *reporter) CallsignDecoded(l string, c string, f int, count int, weight int) {
	r.add(rawReport{"dec", l, f, c, count, weight})
}
func (r *reporter) CallsignSpotted(l string, c string, f int) {
	r.add(rawReport{k: "spot", name: l, f: f, c: c})
}
func (r *reporter) SpotTimeout(l string, c string, f int) {
	r.add(rawReport{k: "gone", name: l, f: f, c: c})
}

type countingScope struct{ spectra, demods atomic.Int64 }

func (s *countingScope) Active() bool { return true }
func (s *countingScope) ShowTimeFrame(f *scope.TimeFrame) {
	if f.Stream == "demod" {
		s.demods.Add(1)
	}
}
func (s *countingScope) ShowSpectralFrame(f *scope.SpectralFrame) { s.spectra.Add(1) }

// ---- the receiver ----

type rxDriver struct {
	mode    rx.ReceiverMode
	r       *rx.Receiver[float32, int]
	iqs     map[int]*sim.IQ
	size    int
	running bool
	now     atomic.Int64
	a, b    *reporter
	names   map[string]int // listeners by their names
	freqs   map[int]int    // the frequency that was reported with the activation
	scopes  map[string]*countingScope
	out     *os.File
	at      int64
	bins    map[int]bool // where signals were fed
	ended   bool
	vfo     int  // bin of the VFO
	gauss   bool // the noise is random
}

const frequency0 = 7000000

func center(c int) int { return frequency0 + 1000000*c }

func newRxDriver(mode rx.ReceiverMode) *rxDriver {
	return &rxDriver{mode: mode, iqs: map[int]*sim.IQ{}, size: 1}
}

func (d *rxDriver) bounded(f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	t := time.NewTimer(10 * time.Minute)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		d.ended = true
		return false
	}
}

func (d *rxDriver) Reset() {
	if d.r != nil && !d.ended {
		d.bounded(d.r.Stop)
	}
	if d.out == nil {
		var err error
		d.out, err = os.CreateTemp("", "stdout")
		if err != nil {
			panic(err)
		}
		os.Remove(d.out.Name())
	}
	d.ended, d.running, d.size, d.vfo = false, false, 1, 0
	d.now.Store(0)
	d.names, d.freqs, d.bins = map[string]int{}, map[int]int{}, map[int]bool{}
	d.scopes = map[string]*countingScope{"A": {}, "B": {}}
	d.a, d.b = &reporter{}, &reporter{}
	start := time.Date(2024, 2, 28, 23, 58, 0, 0, time.UTC)
	stdout := os.Stdout
	os.Stdout = d.out
	d.r = rx.NewReceiver[float32, int]("", d.mode, rx.ClockFunc(func() time.Time { return start.Add(time.Duration(d.now.Load()) * time.Second) }))
	os.Stdout = stdout
	d.r.AddReporter(d.a)
	d.r.AddReporter(d.b)
	d.r.SetEdgeWidth(4)
	d.r.SetCenterFrequency(center(0))
	d.printed()
}

// printed returns the words that were printed since the last call.
func (d *rxDriver) printed() []string {
	buf := make([]byte, 4096)
	var l []byte
	for {
		n, err := d.out.ReadAt(buf, d.at)
		l = append(l, buf[:n]...)
		d.at += int64(n)
		if err != nil {
			break
		}
	}
	return append([]string{}, strings.Fields(string(l))...)
}

func (d *rxDriver) binSize() float64 { return float64(sizes[d.size][0]) / float64(sizes[d.size][1]) }

// shift is added to the bins: in decode mode, they are the ones of the smaller size, since the VFO stays where it is.
func (d *rxDriver) shift() int {
	if d.mode == rx.DecodeMode {
		return sizes[d.size][1]/2 - sizes[1][1]/2
	}
	return 0
}

// token is the frequency as bin and number of the center frequency.
func (d *rxDriver) token(f int) int {
	c := int(math.Round(float64(f-frequency0) / 1000000))
	bin := float64(f-center(c))/d.binSize() + float64(sizes[d.size][1]/2-d.shift())
	for b := range d.bins {
		if math.Abs(bin-float64(b)) <= 1 {
			return c*1000 + b
		}
	}
	return c*1000 + int(math.Round(bin))
}

func (d *rxDriver) id(name string) int {
	if id, ok := d.names[name]; ok {
		return id
	}
	used := map[int]bool{}
	for _, id := range d.names {
		used[id] = true
	}
	for id := 1; ; id++ {
		if !used[id] {
			return id
		}
	}
}

func (d *rxDriver) reports() []report {
	raw, other := d.a.take(), d.b.take()
	r := []report{}
	// the reports of different listeners may come in a different order to different reporters
	byName := func(l []rawReport) []rawReport {
		sort.SliceStable(l, func(i, j int) bool { return l[i].name < l[j].name })
		return l
	}
	if fmt.Sprint(byName(append([]rawReport{}, raw...))) != fmt.Sprint(byName(other)) {
		return append(r, report{K: "the reporters differ", C: fmt.Sprint(raw, other)})
	}
	for _, e := range raw {
		if e.k == "center" {
			r = append(r, report{K: "center", F: (e.f - frequency0) / 1000000})
			continue
		}
		id := d.id(e.name)
		x := report{K: e.k, ID: id, F: d.token(e.f), C: strings.ToLower(e.c), N: e.n}
		if e.w != 0 {
			x.C += fmt.Sprint(" weight ", e.w)
		}
		_, known := d.names[e.name]
		switch {
		case e.k == "on" && !known:
			d.names[e.name] = id
			d.freqs[id] = e.f
		case e.k == "on":
			x.K = "on again"
		case !known:
			x.K += " of an unknown listener " + e.name
		case d.freqs[id] != e.f:
			x.K += fmt.Sprintf(" with another frequency %d %d", e.f, d.freqs[id])
		}
		if e.k == "off" && known {
			delete(d.names, e.name)
		}
		r = append(r, x)
	}
	sort.SliceStable(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

func (d *rxDriver) iq() *sim.IQ {
	if d.iqs[d.size] == nil {
		d.iqs[d.size] = sim.NewIQ(sizes[d.size][1])
	}
	return d.iqs[d.size]
}

func (d *rxDriver) sigs(in M) []sim.Sig {
	var r []sim.Sig
	for _, x := range listOf(in["sig"]) {
		m := x.(M)
		offset := 0.0
		if o, ok := m["o"]; ok {
			offset = float64(vlib.Int(o)) / 100
		}
		s := sim.Sig{Bin: float64(vlib.Int(m["b"])+d.shift()) + offset, Level: float64(vlib.Int(m["lv"]))}
		d.bins[vlib.Int(m["b"])] = true
		if k := vlib.Str(m["k"]); k == "low" {
			s.Low = vlib.Int(m["lv"])
		} else if k != "on" {
			var words []string
			for _, w := range listOf(m["w"]) {
				words = append(words, vlib.Str(w))
			}
			s.Key = sim.Keyed(words, k)
			if len(s.Key) > 100*vlib.Int(in["n"]) {
				panic(fmt.Sprintf("%d epochs are not enough for %v, it takes %d", vlib.Int(in["n"]), words, sim.Epochs(words, k)))
			}
		}
		r = append(r, s)
	}
	return r
}

func (d *rxDriver) block(sigs []sim.Sig, i int) []float32 { return d.iq().Block(sigs, i, d.gauss) }

func (d *rxDriver) feed(sigs []sim.Sig, from, to int) {
	rate := sizes[d.size][0]
	for i := from; i < to; i++ {
		d.r.IQData(rate, d.block(sigs, i))
		if i%50 == 49 {
			synctest.Wait()
		}
	}
	synctest.Wait()
}

func listOf(v any) []any {
	switch l := v.(type) {
	case nil:
		return nil
	case []any:
		for i := range l {
			if m, ok := l[i].(map[string]any); ok {
				l[i] = M(m)
			}
		}
		return l
	case []M:
		var r []any
		for _, x := range l {
			r = append(r, x)
		}
		return r
	case []string:
		var r []any
		for _, x := range l {
			r = append(r, x)
		}
		return r
	}
	panic(fmt.Sprintf("%T", v))
}

func (d *rxDriver) set(k string, v any) {
	switch k {
	case "silence":
		d.r.SetSilenceTimeout(time.Duration(vlib.Int(v)) * time.Second)
	case "busy":
		d.r.SetAttachmentTimeout(time.Duration(vlib.Int(v)) * time.Second)
	case "thr":
		d.r.SetPeakThreshold(float32(vlib.Int(v)))
	case "edge":
		d.r.SetEdgeWidth(vlib.Int(v))
	case "deb":
		d.r.SetSignalDebounce(vlib.Int(v))
	case "center":
		d.r.SetCenterFrequency(center(vlib.Int(v)))
	case "scope":
		if s := d.scopes[vlib.Str(v)]; s != nil {
			d.r.SetScope(s)
		} else {
			d.r.SetScope(scope.NewNullScope())
		}
	default:
		panic(k)
	}
}

// notLater adds a report if more than the given number of listeners were released.
func (d *rxDriver) notLater(left int64) {
	if n := d.a.count("off"); n != left {
		for _, r := range []*reporter{d.a, d.b} {
			r.add(rawReport{k: fmt.Sprint(n-left, " released later")})
		}
	}
}

func (d *rxDriver) Step(in M) any {
	if d.ended {
		return "stuck"
	}
	sc := []any{"none", 0}
	ok := true
	switch op := vlib.Str(in["op"]); op {
	case "start":
		if !d.running {
			d.size = vlib.Int(in["size"])
		}
		d.running = true
		s := sizes[vlib.Int(in["size"])]
		ok = d.bounded(func() { d.r.Start(s[0], s[1]) })
		if d.mode == rx.DecodeMode {
			d.feed(nil, 0, 100) // to fill the statistics
			if d.vfo != 0 {
				// what was decoded from the noise before that is no matter
				d.feed([]sim.Sig{{Bin: float64(d.vfo + d.shift()), Level: 40, Key: sim.Keyed([]string{"vvv", "vvv"}, "plain")}}, 0, 600)
				d.printed()
			}
		}
	case "stop":
		d.running = false
		ok = d.bounded(d.r.Stop)
	case "set":
		ok = d.bounded(func() { d.set(vlib.Str(in["k"]), in["v"]) })
	case "vfo":
		b := vlib.Int(in["b"])
		if d.mode == rx.DecodeMode {
			d.bins[b] = true
		}
		d.vfo = b
		ok = d.bounded(func() { d.r.SetVFOOffset(int(math.Round(float64(b+d.shift()-sizes[d.size][1]/2) * d.binSize()))) })
	case "get":
		ok = d.bounded(func() {
			d.a.add(rawReport{k: "center", f: d.r.CenterFrequency()})
		})
		if ok {
			d.b.add(rawReport{k: "center", f: d.r.CenterFrequency()})
		}
	case "tick":
		d.now.Add(int64(vlib.Int(in["d"])))
	case "cleanup":
		time.Sleep(time.Second)
	case "feed":
		for _, s := range d.scopes {
			s.spectra.Store(0)
			s.demods.Store(0)
		}
		sigs, n := d.sigs(in), vlib.Int(in["n"])
		// listeners whose time is over still hear the first block
		d.feed(sigs, 0, 1)
		left := d.a.count("off")
		d.feed(sigs, 1, 100)
		for name, s := range d.scopes {
			if s.spectra.Load() == 1 && s.demods.Load()%100 <= left && sc[0] == "none" {
				sc = []any{name, s.demods.Load() / 100}
			} else if s.spectra.Load()+s.demods.Load() > 0 {
				sc = []any{"odd", s.spectra.Load(), s.demods.Load(), sc}
			}
		}
		d.feed(sigs, 100, 100*n)
		d.notLater(left)
	case "midway":
		sigs, k := d.sigs(in), vlib.Int(in["k"])
		d.feed(sigs, 0, k)
		d.now.Add(int64(vlib.Int(in["d"])))
		d.feed(sigs, k, k+1)
		left := d.a.count("off")
		d.feed(sigs, k+1, 100)
		d.notLater(left)
	case "gap":
		rate, n := sizes[d.size][0], vlib.Int(in["n"])
		for i := 0; i < n; i++ {
			d.r.IQData(rate, make([]float32, 2*sizes[d.size][1]))
			if i%50 == 49 {
				synctest.Wait()
			}
		}
		synctest.Wait()
		d.feed(nil, 0, 200-n%100)
		d.printed()
	case "held":
		hold := make(chan struct{})
		d.a.setHold(hold)
		sigs, n := d.sigs(in), vlib.Int(in["n"])
		d.feed(sigs, 0, 100*n)
		d.now.Add(int64(vlib.Int(in["d"])))
		d.feed(nil, 0, 50)
		d.a.setHold(nil)
		close(hold)
		synctest.Wait()
		d.feed(nil, 50, 100)
	default:
		panic(op)
	}
	if !ok {
		return "stuck"
	}
	synctest.Wait()
	return M{"ev": d.reports(), "txt": d.printed(), "sc": sc}
}
