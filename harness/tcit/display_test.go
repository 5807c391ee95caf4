package tcit

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/tci"
	"vh/vlib"
	"vh/wsnet"
)

// bounded runs f and reports whether it returned within the bubble's time.
func bounded(f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	t := time.NewTimer(20 * time.Minute)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}

func listOf(v any) []any {
	switch l := v.(type) {
	case nil:
		return nil
	case []any:
		for i := range l {
			if m, ok := l[i].(map[string]any); ok {
				l[i] = M(m)
			}
		}
		return l
	case []M:
		var r []any
		for _, x := range l {
			r = append(r, x)
		}
		return r
	case []string:
		var r []any
		for _, x := range l {
			r = append(r, x)
		}
		return r
	}
	panic(fmt.Sprintf("%T", v))
}

// ---- the device ----

// device is a TCI device with one connection at a time.
type device struct {
	mu      sync.Mutex
	net     *wsnet.Net
	conn    *wsnet.Conn
	seen    int           // connections
	answers bool          // the device answers the commands
	delay   time.Duration // until the answer
	markers map[string]string
	iq      []string // commands about the IQ stream
	odd     []string
	open    bool // there is a command that was not answered
}

var port = 15000 + rand.Intn(1000)

func newDevice() *device {
	port++
	d := &device{net: &wsnet.Net{Credit: -1, Refuse: true, Port: strconv.Itoa(port)}, markers: map[string]string{}}
	wsnet.Install(d.net)
	return d
}

func (d *device) host() string { return "127.0.0.1:" + d.net.Port }

// dialled waits until the client has dialled; it tries every ten seconds.
func (d *device) dialled() bool {
	d.net.SetRefuse(false)
	for i := 0; i < 12 && d.net.Count() == d.seen; i++ {
		time.Sleep(time.Second)
		synctest.Wait()
	}
	d.net.SetRefuse(true)
	if d.net.Count() == d.seen {
		return false
	}
	d.seen = d.net.Count()
	d.conn = d.net.Last()
	go d.serve(d.conn)
	synctest.Wait()
	return true
}

// park leaves the client waiting for a device that never gets ready.
func (d *device) park() {
	if d.conn == nil {
		d.dialled()
	}
}

func (d *device) ready(messages ...string) {
	d.settle()
	d.mu.Lock()
	d.markers = map[string]string{}
	d.mu.Unlock()
	for _, m := range append(append([]string{"protocol:ExpertSDR3,1.8;", "device:SunSDR2DX;", "trx_count:2;"}, messages...), "ready;") {
		d.conn.Text(m)
		synctest.Wait()
	}
}

func (d *device) hangup() {
	d.conn.HangUp()
	d.conn = nil
}

// settle waits until there are no more commands; it takes no time if all of them were answered.
func (d *device) settle() {
	synctest.Wait()
	for {
		d.mu.Lock()
		open := d.open
		d.open = false
		d.mu.Unlock()
		if !open {
			return
		}
		time.Sleep(51 * time.Millisecond)
		synctest.Wait()
	}
}

func (d *device) serve(c *wsnet.Conn) {
	for {
		l := c.Next()
		if len(l) == 0 {
			return
		}
		for _, m := range l {
			d.take(m)
			if d.answers {
				if d.delay > 0 {
					time.Sleep(d.delay)
				}
				c.Text(m)
			}
		}
	}
}

func (d *device) take(m string) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.open = d.open || !d.answers || strings.Contains(m, "<")
	name, rest, _ := strings.Cut(strings.TrimSuffix(m, ";"), ":")
	args := strings.Split(rest, ",")
	switch {
	case name == "spot" && len(args) == 5:
		d.markers[args[0]] = args[2]
	case name == "spot_delete" && len(args) == 1:
		delete(d.markers, args[0])
	case name == "iq_samplerate" && rest == "48000", name == "iq_start" && rest == "1", name == "iq_stop" && rest == "1":
		d.iq = append(d.iq, name)
	case strings.HasPrefix(name, "iq"):
		d.iq = append(d.iq, m)
	default:
		d.odd = append(d.odd, m)
	}
}

func (d *device) commands() []string {
	d.mu.Lock()
	defer d.mu.Unlock()
	l := append([]string{}, d.iq...)
	d.iq = nil
	return l
}

// marker returns the frequency of the marker with the given name.
func (d *device) marker(name string) string {
	d.mu.Lock()
	defer d.mu.Unlock()
	for n, f := range d.markers {
		if strings.EqualFold(strings.Trim(n, "<>"), name) {
			return f
		}
	}
	return ""
}

// strangers returns the markers whose name is not one of the given.
func (d *device) strangers(names ...string) []string {
	d.mu.Lock()
	defer d.mu.Unlock()
	var r []string
	for n, f := range d.markers {
		known := false
		for _, x := range names {
			known = known || strings.EqualFold(strings.Trim(n, "<>"), x)
		}
		if !known {
			r = append(r, n+" at "+f)
		}
	}
	return r
}

// ---- the spotter ----

type spotter struct {
	mu   sync.Mutex
	list [][]any
}

func (s *spotter) Spot(call string, f float64, msg string, at time.Time) {
	s.mu.Lock()
	defer s.mu.Unlock()
	e := []any{call, f}
	if at.Location() != time.UTC {
		e = append(e, at.String())
	}
	if age := time.Since(at); age < 0 || age > time.Hour {
		e = append(e, age.String())
	}
	s.list = append(s.list, e)
}

func (s *spotter) take() [][]any {
	s.mu.Lock()
	defer s.mu.Unlock()
	l := s.list
	s.list = nil
	return l
}

// ---- the process with reports from outside ----

const (
	listeners = 8
	callsigns = 6
)

var calls = []string{"DL1ABC", "K3LR", "VP8/G4XYZ/P", "W1AW", "OH2BH", "PA3FWM/MM"}

type displayDriver struct {
	process *tci.Process
	dev     *device
	spots   *spotter
	old     map[string]bool // what had a marker before the connection was lost: nothing is said about it
	shown   map[string]bool
	on      map[string]bool
	up      bool
	stuck   bool
	over    bool
	ended   bool
	nl, ns  int // the number of listeners and callsigns
}

func name(x int) string { return fmt.Sprintf("L%02d", x) }

func frequency(f int) int { return 7000000 + 1500*f }

func token(f any) any {
	var n float64
	switch x := f.(type) {
	case float64:
		n = x
	case string:
		if x == "" {
			return 0
		}
		i, err := strconv.Atoi(x)
		if err != nil {
			return x
		}
		n = float64(i)
	}
	t := (n - 7000000) / 1500
	if t != float64(int(t)) || t < 1 {
		return fmt.Sprint(f)
	}
	return int(t)
}

func (d *displayDriver) Reset() {
	if d.process != nil && !d.ended {
		bounded(d.process.Close)
		d.dev.park()
	}
	*d = displayDriver{dev: newDevice(), spots: &spotter{}, nl: d.nl, ns: d.ns, old: map[string]bool{}, shown: map[string]bool{}, on: map[string]bool{}}
	switch vlib.Rand.Intn(3) {
	case 0:
		d.dev.answers = true
	case 1:
		d.dev.answers, d.dev.delay = true, 20*time.Millisecond
	}
	var err error
	d.process, err = tci.New(d.dev.host(), 1, rx.StrainMode, d.spots, nil, false)
	if err != nil {
		panic(err)
	}
	synctest.Wait()
}

func (d *displayDriver) report(r M) {
	x := vlib.Int(r["x"])
	switch f := frequency(vlib.Int(r["f"])); vlib.Str(r["k"]) {
	case "on":
		d.old[name(x)], d.shown[name(x)] = false, true
		d.on[name(x)] = true
		d.process.ListenerActivated(name(x), f)
	case "off":
		d.old[name(x)], d.shown[name(x)] = false, false
		d.on[name(x)] = false
		d.process.ListenerDeactivated(name(x), f)
	case "dec":
		d.process.CallsignDecoded(name(1), calls[x-1], f, 1, 2)
	case "spot":
		d.old[calls[x-1]], d.shown[calls[x-1]] = false, true
		d.process.CallsignSpotted(name(1), calls[x-1], f)
	case "gone":
		d.old[calls[x-1]], d.shown[calls[x-1]] = false, false
		d.process.SpotTimeout(name(1), calls[x-1], f)
	}
}

func (d *displayDriver) Step(in M) any {
	if d.ended {
		return "stuck"
	}
	rs := listOf(in["r"])
	ok := bounded(func() {
		for _, r := range rs {
			d.report(r.(M))
		}
	})
	looked := d.up && !d.stuck // at the display
	switch vlib.Str(in["op"]) {
	case "connect":
		if !d.dev.dialled() {
			return "does not connect"
		}
		for k, v := range d.shown {
			d.old[k] = v
		}
		d.dev.ready("if_limits:-24000,24000;")
		d.up, d.stuck, looked = true, false, !d.over
	case "show":
		d.process.SetShow(in["l"].(bool), in["s"].(bool))
		looked = false
	case "stick":
		d.dev.conn.SetCredit(0)
		d.stuck, looked = true, false
	case "hangup":
		// in the middle of the commands
		time.Sleep(time.Duration(vlib.Rand.Intn(120)) * time.Millisecond)
		d.dev.hangup()
		d.up, d.stuck, looked = false, false, false
	case "close":
		ok = ok && bounded(d.process.Close)
		looked = looked && !d.over
		d.over = true
	}
	if !ok {
		d.ended = true
		return "stuck"
	}
	time.Sleep(time.Minute + time.Duration(len(rs))*5*time.Second)
	synctest.Wait()
	sp := [][]any{}
	for _, s := range d.spots.take() {
		e := append([]any{s[0], token(s[1])}, s[2:]...)
		for i, c := range calls {
			if s[0] == c {
				e[0] = i + 1
			}
		}
		sp = append(sp, e)
	}
	out := M{"l": []any{}, "s": []any{}, "sp": sp, "c": d.dev.commands()}
	if looked {
		var names []string
		for x := 1; x <= d.nl; x++ {
			names = append(names, name(x))
		}
		out["l"] = d.freqs(names)
		if !d.over {
			out["s"] = d.freqs(calls[:d.ns])
		}
		if l := d.dev.strangers(append(names, calls...)...); len(l) > 0 {
			out["odd"] = l
		}
	}
	return out
}

func (d *displayDriver) freqs(names []string) []any {
	r := []any{}
	for _, n := range names {
		if d.old[n] || d.over && d.on[n] {
			r = append(r, 0)
		} else {
			r = append(r, token(d.dev.marker(n)))
		}
	}
	return r
}

func randomReports(r *rand.Rand, on map[int]bool, most int) []M {
	l := []M{}
	for n := r.Intn(most); n > 0; n-- {
		f := 1 + r.Intn(15)
		switch k := r.Intn(10); {
		case k < 4:
			x := 1 + r.Intn(listeners)
			if on[x] {
				l = append(l, M{"k": "off", "x": x, "f": f})
			} else {
				l = append(l, M{"k": "on", "x": x, "f": f})
			}
			on[x] = !on[x]
		case k < 5:
			l = append(l, M{"k": "dec", "x": 1 + r.Intn(callsigns), "f": f})
		default:
			l = append(l, M{"k": []string{"spot", "spot", "gone"}[r.Intn(3)], "x": 1 + r.Intn(callsigns), "f": f})
		}
	}
	return l
}

// display drives random behaviours.
func display(tr *vlib.Trace, ends bool) {
	d := &displayDriver{nl: listeners, ns: callsigns}
	for i := 0; i < vlib.N(60, 1500) && !vlib.Violated(); i++ {
		d.Reset()
		tr.Reset(nil)
		vlib.Progress(M{"scenario": "random reports", "answers": d.dev.answers})
		r, on := vlib.Rand, map[int]bool{}
		for n := 2 + r.Intn(15); n > 0; n-- {
			most := []int{2, 6, 90, 220}[r.Intn(4)]
			var in M
			switch k := r.Intn(20); {
			case k < 2:
				in = M{"op": "show", "l": r.Intn(4) > 0, "s": r.Intn(4) > 0}
			case k < 5 && !d.up:
				in = M{"op": "connect"}
			case k == 5 && d.up && !d.over:
				in = M{"op": "hangup", "r": randomReports(r, on, most)}
			case k == 6 && d.up && !d.over && !d.stuck:
				in = M{"op": "stick"}
			case k == 7 && ends:
				in = M{"op": "close", "r": []M{}}
				if !d.over {
					in["r"] = randomReports(r, on, most)
				}
			case !d.over:
				in = M{"op": "report", "r": randomReports(r, on, most)}
			default:
				continue
			}
			vlib.ProgressStep(in)
			tr.Ev(in, d.Step(in))
		}
	}
}
