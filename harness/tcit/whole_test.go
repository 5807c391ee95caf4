package tcit

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/tci"
	"vh/sim"
	"vh/vlib"
)

// ---- the process as a whole, with its receiver ----

const (
	blockSize  = 512
	sampleRate = 48000
	parts      = 4 // blocks in a packet
	binSize    = float64(sampleRate) / blockSize
	frequency0 = 7000000
	grid       = 61 * time.Second // the least time of a wait; the other steps take fractions of a second
	firstCall  = "w1aw"
)

func center(c int) int { return frequency0 + 1000000*c }

type report struct {
	K  string `json:"k"`
	ID int    `json:"id"`
	F  int    `json:"f"`
	C  string `json:"c"`
	N  int    `json:"n"`
}

type rawReport struct {
	k, name string
	f       int
	c       string
	n       int
}

type reporter struct {
	mu   sync.Mutex
	list []rawReport
}

func (r *reporter) add(e rawReport) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.list = append(r.list, e)
}

func (r *reporter) take() []rawReport {
	r.mu.Lock()
	defer r.mu.Unlock()
	l := r.list
	r.list = nil
	return l
}

func (r *reporter) ListenerActivated(l string, f int)   { r.add(rawReport{k: "on", name: l, f: f}) }
func (r *reporter) ListenerDeactivated(l string, f int) { r.add(rawReport{k: "off", name: l, f: f}) }
func (r *reporter) CallsignDecoded(l string, c string, f int, count int, weight int) {
	r.add(rawReport{"dec", l, f, c, count})
}
func (r *reporter) CallsignSpotted(l string, c string, f int) {
	r.add(rawReport{k: "spot", name: l, f: f, c: c})
}
func (r *reporter) SpotTimeout(l string, c string, f int) {
	r.add(rawReport{k: "gone", name: l, f: f, c: c})
}

type wholeDriver struct {
	mode    rx.ReceiverMode
	pool    int
	calls   []string
	process *tci.Process
	dev     *device
	spots   *spotter
	rep     *reporter
	iq      *sim.IQ
	packets map[string][]byte
	names   map[string]int // listeners by their names
	byID    map[int]string
	freqs   map[int]int // by the numbers of the listeners
	exact   map[int]int // the numbers of the listeners by their exact frequencies
	bins    map[int]bool
	old     map[string]bool
	shown   map[string]bool
	out     *os.File
	at      int64
	link    string
	vfo     int
	over    bool
	running bool
	ended   bool
	started time.Time // of the receiver
	late    bool      // it is time for a wait
}

func newWholeDriver(mode rx.ReceiverMode, pool int, calls []string) *wholeDriver {
	out, err := os.CreateTemp("", "stdout")
	if err != nil {
		panic(err)
	}
	os.Remove(out.Name())
	return &wholeDriver{mode: mode, pool: pool, calls: calls, out: out, iq: sim.NewIQ(blockSize), packets: map[string][]byte{}}
}

func (d *wholeDriver) Reset() {
	if d.process != nil && !d.ended {
		bounded(d.process.Close)
		d.dev.park()
	}
	*d = wholeDriver{mode: d.mode, pool: d.pool, calls: d.calls, out: d.out, at: d.at, iq: d.iq, packets: d.packets,
		dev: newDevice(), spots: &spotter{}, rep: &reporter{}, link: "down",
		names: map[string]int{}, byID: map[int]string{}, freqs: map[int]int{}, exact: map[int]int{}, bins: map[int]bool{},
		old: map[string]bool{}, shown: map[string]bool{}}
	d.dev.answers = true
	stdout := os.Stdout
	os.Stdout = d.out
	var err error
	d.process, err = tci.New(d.dev.host(), 1, d.mode, d.spots, d.rep, false)
	os.Stdout = stdout
	if err != nil {
		panic(err)
	}
	synctest.Wait()
	d.printed()
}

// printed returns the words that were printed since the last call.
func (d *wholeDriver) printed() []string {
	buf := make([]byte, 4096)
	var l []byte
	for {
		n, err := d.out.ReadAt(buf, d.at)
		l = append(l, buf[:n]...)
		d.at += int64(n)
		if err != nil {
			break
		}
	}
	return append([]string{}, strings.Fields(string(l))...)
}

// token is the frequency as bin and number of the center frequency.
func (d *wholeDriver) token(f int) int {
	c := int(math.Round(float64(f-frequency0) / 1000000))
	bin := float64(f-center(c))/binSize + blockSize/2
	if f < 1000000 { // the center frequency is not known yet
		c, bin = 0, float64(f)/binSize+blockSize/2
	}
	for b := range d.bins {
		if math.Abs(bin-float64(b)) <= 1 {
			return c*1000 + b
		}
	}
	return c*1000 + int(math.Round(bin))
}

func (d *wholeDriver) id(name string) int {
	if id, ok := d.names[name]; ok {
		return id
	}
	used := map[int]bool{}
	for _, id := range d.names {
		used[id] = true
	}
	for id := 1; ; id++ {
		if !used[id] {
			return id
		}
	}
}

func (d *wholeDriver) reports() []report {
	r := []report{}
	for _, e := range d.rep.take() {
		id := d.id(e.name)
		x := report{K: e.k, ID: id, F: d.token(e.f), C: strings.ToLower(e.c), N: e.n}
		_, known := d.names[e.name]
		switch {
		case e.k == "on" && !known:
			d.names[e.name], d.byID[id] = id, e.name
			d.freqs[id], d.exact[e.f] = e.f, id
		case e.k == "on":
			x.K = "on again"
		case !known:
			x.K += " of an unknown listener " + e.name
		case d.freqs[id] != e.f:
			x.K += fmt.Sprintf(" with another frequency %d %d", e.f, d.freqs[id])
		}
		switch e.k {
		case "on":
			d.old[e.name], d.shown[e.name] = false, true
		case "off":
			delete(d.names, e.name)
			delete(d.byID, id)
			d.old[e.name], d.shown[e.name] = false, false
		case "spot":
			d.old[e.c], d.shown[e.c] = false, true
		case "gone":
			d.old[e.c], d.shown[e.c] = false, false
		}
		r = append(r, x)
	}
	sort.SliceStable(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

func (d *wholeDriver) sigs(in M) []sim.Sig {
	var r []sim.Sig
	for _, x := range listOf(in["sig"]) {
		m := x.(M)
		s := sim.Sig{Bin: float64(vlib.Int(m["b"])), Level: float64(vlib.Int(m["lv"]))}
		d.bins[vlib.Int(m["b"])] = true
		if k := vlib.Str(m["k"]); k != "on" {
			var words []string
			for _, w := range listOf(m["w"]) {
				words = append(words, vlib.Str(w))
			}
			s.Key = sim.Keyed(words, k)
			if len(s.Key) > 100*vlib.Int(in["n"]) {
				panic(fmt.Sprintf("%d epochs are not enough for %v", vlib.Int(in["n"]), words))
			}
		}
		r = append(r, s)
	}
	return r
}

// packet is a message with the data of the given blocks.
func (d *wholeDriver) packet(trx, rate, kind int, sigs []sim.Sig, first int) []byte {
	key := fmt.Sprint(trx, rate, kind)
	for i := first; i < first+parts; i++ {
		for _, s := range sigs {
			key += fmt.Sprint(" ", s.Bin, s.Level, s.Key == nil || i < len(s.Key) && s.Key[i])
		}
		key += ";"
	}
	if p, ok := d.packets[key]; ok {
		return p
	}
	var data []float32
	for i := first; i < first+parts; i++ {
		data = append(data, d.iq.Block(sigs, i, false)...)
	}
	var b bytes.Buffer
	head := [16]uint32{uint32(trx), uint32(rate), 4, 0, 0, uint32(len(data)), uint32(kind)}
	binary.Write(&b, binary.LittleEndian, head)
	binary.Write(&b, binary.LittleEndian, data)
	d.packets[key] = b.Bytes()
	return b.Bytes()
}

func (d *wholeDriver) feed(trx int, sigs []sim.Sig, n int, others bool) {
	for i := 0; i < 100*n; i += parts {
		if others && vlib.Rand.Intn(3) == 0 {
			loud := []sim.Sig{{Bin: 40 + float64(vlib.Rand.Intn(400)), Level: 60}}
			switch vlib.Rand.Intn(3) {
			case 0: // of another TRX
				d.dev.conn.Binary(d.packet(2-2*vlib.Rand.Intn(2), sampleRate, 0, loud, 0))
			case 1: // with another rate
				d.dev.conn.Binary(d.packet(1, 2*sampleRate, 0, loud, 0))
			case 2: // audio data
				d.dev.conn.Binary(d.packet(1, sampleRate, 1, loud, 0))
			}
		}
		d.dev.conn.Binary(d.packet(trx, sampleRate, 0, sigs, i))
		if i%40 == 36 {
			synctest.Wait()
		}
	}
	synctest.Wait()
}

func (d *wholeDriver) Step(in M) any {
	if d.ended {
		return "stuck"
	}
	ok := true
	begin := time.Now()
	switch op := vlib.Str(in["op"]); op {
	case "show":
		d.process.SetShow(in["l"].(bool), in["s"].(bool))
	case "set":
		v := vlib.Int(in["v"])
		ok = bounded(func() {
			switch k := vlib.Str(in["k"]); k {
			case "silence":
				d.process.SetSilenceTimeout(time.Duration(v) * time.Second)
			case "busy":
				d.process.SetAttachmentTimeout(time.Duration(v) * time.Second)
			case "thr":
				d.process.SetThreshold(v)
			case "deb":
				d.process.SetSignalDebounce(v)
			default:
				panic(k)
			}
		})
	case "wait":
		if in["dial"].(bool) && d.link == "down" {
			if !d.dev.dialled() {
				return "does not connect"
			}
			d.link = "dialled"
		}
	case "ready":
		if !d.running {
			d.started = time.Now()
		}
		d.link = "up"
		for k, v := range d.shown {
			d.old[k] = v
		}
		d.dev.ready("if_limits:-22000,22000;")
		if d.mode == rx.DecodeMode && !d.running && !d.over {
			d.feed(1, nil, 1, false) // to fill the statistics
			if d.vfo != 0 {
				// what was decoded from the noise before that is no matter
				d.feed(1, []sim.Sig{{Bin: float64(d.vfo), Level: 40, Key: sim.Keyed([]string{"vvv", "vvv"}, "plain")}}, 6, false)
				d.printed()
			}
		}
		d.running = true
	case "hangup":
		d.link = "down"
		d.dev.hangup()
	case "dds":
		d.dev.conn.Text(fmt.Sprintf("dds:%d,%d;", vlib.Int(in["trx"]), center(vlib.Int(in["c"]))))
	case "if":
		b := vlib.Int(in["b"])
		if vlib.Int(in["trx"]) == 1 && vlib.Int(in["vfo"]) == 0 {
			d.vfo = b
			if d.mode == rx.DecodeMode {
				d.bins[b] = true
			}
		}
		d.dev.conn.Text(fmt.Sprintf("if:%d,%d,%d;", vlib.Int(in["trx"]), vlib.Int(in["vfo"]), int(math.Round(float64(b-blockSize/2)*binSize))))
	case "iq":
		d.feed(vlib.Int(in["trx"]), d.sigs(in), vlib.Int(in["n"]), true)
	case "close":
		for i := vlib.Int(in["n"]); i > 0 && !d.over; i-- {
			d.process.CallsignSpotted("nobody", strings.ToUpper(firstCall), -1)
		}
		ok = bounded(d.process.Close)
		d.running = false
	default:
		panic(op)
	}
	if !ok {
		d.ended = true
		return "stuck"
	}
	synctest.Wait()
	if vlib.Str(in["op"]) == "wait" {
		// Signals are forgotten at full seconds from the start of the receiver on: only waits include such moments.
		phase := begin.Add(grid).Sub(d.started) % time.Second
		time.Sleep(time.Until(begin.Add(grid - phase + 1100*time.Millisecond)))
	}
	d.dev.settle()
	d.late = time.Since(d.started)%time.Second > 700*time.Millisecond
	return d.look(in)
}

func (d *wholeDriver) look(in M) any {
	over := d.over
	d.over = d.over || vlib.Str(in["op"]) == "close"
	ev := d.reports()
	type spot struct {
		id int
		e  []any
	}
	var spots []spot
	for _, s := range d.spots.take() {
		f := s[1].(float64)
		e := spot{d.exact[int(f)], append([]any{strings.ToLower(s[0].(string)), d.token(int(f))}, s[2:]...)}
		if f == -1 {
			e = spot{0, append([]any{strings.ToLower(s[0].(string)), 99}, s[2:]...)}
		}
		spots = append(spots, e)
	}
	sort.SliceStable(spots, func(i, j int) bool { return spots[i].id < spots[j].id })
	sp := [][]any{}
	for _, s := range spots {
		sp = append(sp, s.e)
	}
	commands := d.dev.commands()
	if d.link == "dialled" {
		commands = []string{} // the device is not ready for them
	}
	out := M{"ev": ev, "txt": d.printed(), "c": commands, "sp": sp, "l": []any{}, "s": []any{}}
	marker := func(name string) int {
		f := d.dev.marker(name)
		var n int
		if _, err := fmt.Sscan(f, &n); err != nil || d.old[name] {
			return 0
		}
		return d.token(n)
	}
	if d.link == "up" && !over {
		l, names := []any{}, []string{}
		for id := 1; id <= d.pool; id++ {
			l = append(l, 0)
			if n, ok := d.byID[id]; ok {
				l[id-1] = marker(n)
				names = append(names, n)
			}
		}
		out["l"] = l
		all := append([]string{}, names...)
		for _, c := range d.calls {
			all = append(all, strings.ToUpper(c))
		}
		if odd := d.dev.strangers(all...); len(odd) > 0 {
			out["odd"] = odd
		}
	}
	if d.link == "up" && !d.over {
		s := M{}
		for _, c := range d.calls {
			s[c] = marker(strings.ToUpper(c))
		}
		out["s"] = s
	}
	return out
}
