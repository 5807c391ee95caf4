package progt

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/ftl/digimodes/cw"
	"github.com/ftl/sdrainer/scope/pb"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"

	"vh/sim"
)

// conf is how the program is started.
type conf struct {
	Cmd, Src  string
	Fault     string // what makes the start impossible
	Thr       int
	Deb       int
	Sil, Busy int
	Every     int // ms
	Listeners bool
	Spots     bool
	Call      string
	Trx       int
	Vfo       int // a bin
	Scope     bool
	Debug     bool
	Bw        int
	User, Pw  string
	Center    int
	Source    string
	Pitch     int
	Wpm       int
	Scale     int // per cent
	Mag       int // per cent
	Defaults  bool
	Hasty     bool
}

func (c conf) m() M {
	return M{"cmd": c.Cmd, "src": c.Src, "fault": c.Fault, "thr": c.Thr, "deb": c.Deb, "sil": c.Sil, "busy": c.Busy, "every": c.Every,
		"listeners": c.Listeners, "spots": c.Spots, "call": c.Call, "trx": c.Trx, "vfo": c.Vfo, "scope": c.Scope, "debug": c.Debug,
		"bw": c.Bw, "user": c.User, "pw": c.Pw, "center": c.Center, "source": c.Source, "pitch": c.Pitch, "wpm": c.Wpm,
		"scale": c.Scale, "mag": c.Mag, "hasty": c.Hasty}
}

var sources = []pulseSource{{"mic", 44100}, {"line", 48000}, {"mon", 22050}}

// driver drives one run of the program.
type driver struct {
	c       conf
	p       *program
	r       radio
	pulse   *pulseServer
	others  []func()
	telnet  int
	scope   int
	device  int // its port
	linked  bool
	clients []*client
	// closed when the scope client is disconnected
	watchers []chan struct{}
	read     []int // the spots of each client so far
	printed  int   // the length of the output so far
	bins     []int
	dir      string

	mu    sync.Mutex
	now   []sim.Sig
	first int // the block of the signals
	end   int
	stop  chan struct{}
	fed   sync.WaitGroup
}

// feed sends the IQ data without an end.
func (d *driver) feed() {
	defer d.fed.Done()
	next := time.Now()
	for {
		select {
		case <-d.stop:
			return
		default:
		}
		d.mu.Lock()
		sigs, first := d.now, d.first
		if d.first += parts; d.first >= d.end {
			d.now = nil
		}
		d.mu.Unlock()
		d.r.send(sigs, first)
		if next = next.Add(d.r.pace()); time.Now().After(next) {
			next = time.Now() // without catching up
		}
		time.Sleep(time.Until(next))
	}
}

// on lets a signal sound.
func (d *driver) on(s sim.Sig) {
	d.mu.Lock()
	d.now, d.first, d.end = []sim.Sig{s}, 0, len(s.Key)
	d.mu.Unlock()
	until(time.Minute, func() bool {
		d.mu.Lock()
		defer d.mu.Unlock()
		return d.now == nil
	})
}

func (d *driver) close() {
	if d.stop != nil {
		close(d.stop)
		d.fed.Wait()
	}
	if d.p != nil {
		d.p.kill()
	}
	for _, c := range d.clients {
		c.conn.Close()
	}
	if d.r != nil {
		d.r.close()
	}
	if d.pulse != nil {
		d.pulse.close()
	}
	for _, f := range d.others {
		f()
	}
	os.RemoveAll(d.dir)
}

func occupied() (int, func()) {
	port := freePort()
	l, err := net.Listen("tcp", fmt.Sprintf(":%d", port))
	if err != nil {
		return occupied()
	}
	return port, func() { l.Close() }
}

// run starts the program.
func (d *driver) run() any {
	c := d.c
	args := []string{c.Cmd, c.Src}
	flag := func(is bool, name string, value any) {
		if is {
			args = append(args, fmt.Sprintf("--%s=%v", name, value))
		}
	}
	env := []string{}
	device := freePort()
	d.telnet, d.scope = freePort(), freePort()
	if c.Defaults {
		d.telnet, device = 7373, 40001
		if c.Src == "kiwi" {
			device = 8073
		}
	}
	if c.Fault == "taken" {
		var f func()
		d.telnet, f = occupied()
		d.others = append(d.others, f)
	}
	if c.Cmd == "strain" {
		flag(!c.Defaults, "telnet_port", d.telnet)
		flag(c.Call != "local-#", "telnet_call", c.Call)
		flag(c.Sil != 10, "silence", fmt.Sprint(c.Sil, "s"))
		flag(c.Busy != 60, "busy", fmt.Sprint(c.Busy, "s"))
		flag(c.Every != 60000, "spot_every", fmt.Sprint(c.Every, "ms"))
	}
	flag(c.Deb != 1, "debounce", c.Deb)
	flag(c.Debug, "debug", true)
	flag(c.Scope, "scope", true)
	flag(c.Scope, "scope-address", fmt.Sprintf("127.0.0.1:%d", d.scope))
	flag(c.Fault == "flag", "no_such_flag", 1)
	flag(c.Fault == "value", "debounce", "x")
	host := fmt.Sprintf("127.0.0.1:%d", device)
	if c.Fault == "host" {
		host = "127.0.0.1:70000"
	}
	switch c.Src {
	case "tci":
		flag(!c.Defaults, "host", host)
		flag(c.Trx != 0, "trx", c.Trx)
		flag(c.Listeners, "show_listeners", true)
		flag(c.Spots, "show_spots", true)
		flag(c.Thr != 15, "threshold", c.Thr)
		if c.Fault != "absent" {
			d.r = newTCI(device, c.Trx, c.Vfo)
		}
	case "kiwi":
		flag(!c.Defaults, "host", host)
		flag(c.User != "", "username", c.User)
		flag(c.Pw != "", "password", c.Pw)
		flag(c.Center != 7020000, "center", c.Center)
		flag(c.Bw != 10000, "bandwidth", c.Bw)
		flag(c.Thr != 15, "threshold", c.Thr)
		if c.Fault != "absent" {
			d.r = newKiwi(device, c.Center)
		}
	case "pulse":
		flag(c.Source != "", "source", c.Source)
		flag(c.Pitch != 700, "pitch", c.Pitch)
		flag(c.Wpm != 20, "wpm", c.Wpm)
		flag(c.Scale != 0, "scale", float64(c.Scale)/100)
		flag(c.Mag != 75, "magnitude", float64(c.Mag)/100)
		path := filepath.Join(d.dir, "p")
		env = append(env, "PULSE_SERVER=unix:"+path)
		if c.Fault != "absent" {
			d.pulse = newPulse(path, sources...)
		}
	}
	d.device, d.linked = device, c.Fault == "none"
	d.p = startProgram(env, args...)
	if c.Fault != "none" && !(c.Fault == "absent" && c.Src == "tci") {
		code, ended := d.p.exit(10 * time.Second)
		if !ended {
			code = 999
		}
		return M{"exit": code}
	}

	var hello []string
	telnet := true
	if c.Cmd == "strain" {
		telnet = until(5*time.Second, func() bool { return d.ended() || accepts(d.telnet) })
	}
	switch {
	case c.Fault == "absent":
		time.Sleep(time.Duration(300+rand.Intn(900)) * time.Millisecond)
	case d.r != nil:
		if c.Hasty { // the signal comes while the connection is made
			time.Sleep(time.Duration(rand.Intn(200)) * time.Millisecond)
			break
		}
		until(10*time.Second, func() bool { return d.ended() || d.r.connected() })
		hello = d.r.hello()
		d.feeding()
	case d.pulse != nil:
		until(10*time.Second, func() bool { _, running, _ := d.pulse.state(); return d.ended() || running })
		d.pulse.mu.Lock()
		rec := d.pulse.rec
		d.pulse.mu.Unlock()
		hello = []string{sources[rec.source].name, fmt.Sprint(rec.rate)}
	}
	if hello == nil {
		hello = []string{}
	}
	return M{"telnet": c.Cmd == "strain" && telnet, "scope": accepts(d.scope), "hello": hello, "ended": d.ended()}
}

func (d *driver) feeding() {
	if d.stop == nil {
		d.stop = make(chan struct{})
		d.fed.Add(1)
		go d.feed()
	}
}

// watch connects a client to the scope server, and tells what it sees.
func (d *driver) watch() any {
	conn, err := grpc.NewClient(fmt.Sprintf("127.0.0.1:%d", d.scope), grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		return M{"bad": err.Error()}
	}
	ctx, cancel := context.WithCancel(context.Background())
	d.others = append(d.others, func() { cancel(); conn.Close() })
	client := pb.NewScopeClient(conn)
	frames, err := client.GetFrames(ctx, &pb.GetScopeRequest{})
	if err != nil {
		return M{"bad": err.Error()}
	}
	first := make(chan M, 1)
	done := make(chan struct{})
	var slow atomic.Bool
	go func() {
		defer close(done)
		seen := false
		for {
			f, err := frames.Recv()
			if err != nil {
				// the server drops a client that is too slow: try it again
				if seen || d.r == nil || ctx.Err() != nil {
					return
				}
				slow.Store(true)
				time.Sleep(20 * time.Millisecond)
				if frames, err = client.GetFrames(ctx, &pb.GetScopeRequest{}); err != nil {
					return
				}
				continue
			}
			if s := f.GetSpectralFrame(); s != nil {
				m := M{"values": len(s.Values)}
				if d.c.Cmd == "strain" {
					bin := int(s.FrequencyMarkers["signal_bin"])
					for _, b := range d.bins {
						if max(bin-b, b-bin) == 1 {
							bin = b
						}
					}
					m["signal"] = bin
				}
				seen = true
				select {
				case first <- m:
				default:
				}
			}
		}
	}()
	d.watchers = append(d.watchers, done)
	if d.r == nil {
		time.Sleep(100 * time.Millisecond)
		return M{"done": true}
	}
	select {
	case f := <-first:
		return f
	case <-time.After(10 * time.Second):
		if slow.Load() {
			return M{"slow": true}
		}
		return M{"bad": "no frames"}
	}
}

// back lets the TCI device appear.
func (d *driver) back() any {
	if d.r == nil {
		d.r = newTCI(d.device, d.c.Trx, d.c.Vfo)
	} else {
		d.r.(*tciDevice).back()
	}
	d.linked = true
	until(25*time.Second, func() bool { return d.ended() || d.r.connected() })
	hello := d.r.hello()
	d.feeding()
	return M{"hello": hello, "ended": d.ended()}
}

func (d *driver) ended() bool {
	_, e := d.p.exit(0)
	return e
}

// ---- what is seen ----

var (
	activated   = regexp.MustCompile(`^listener \S+ activated on ([\d.]+)kHz$`)
	deactivated = regexp.MustCompile(`^listener \S+ deactivated on ([\d.]+)kHz$`)
	heard       = regexp.MustCompile(`^callsign (\S+) heard (\d+) times on ([\d.]+)kHz, weight is 0$`)
	spotted     = regexp.MustCompile(`^callsign (\S+) spotted on ([\d.]+)kHz$`)
	dx          = regexp.MustCompile(`^DX de (\S+): +([\d.]+) +(\S+) +cw +\d{4}z$`)
)

// bin returns the bin of a frequency that is exact but for the given error in Hz.
func (d *driver) bin(hz float64, e float64) int {
	for _, b := range d.bins {
		if math.Abs(frequency(d.r, d.center(), b)-hz) <= e {
			return b
		}
	}
	return -1
}

func (d *driver) center() int {
	if d.c.Src == "kiwi" {
		return d.c.Center
	}
	return center0
}

func (d *driver) kHz(s string, e float64) int {
	f, _ := strconv.ParseFloat(s, 64)
	return d.bin(f*1000, e)
}

// lines returns the complete lines that were printed since the last time.
func (d *driver) lines() []string {
	s := d.p.printed()[d.printed:]
	i := strings.LastIndexByte(s, '\n')
	if i < 0 {
		return nil
	}
	d.printed += i + 1
	return strings.Split(s[:i], "\n")
}

type seen struct {
	on, off []int
	heard   []M
	spotted []M
}

func (d *driver) reports() M {
	on, off, h, sp := []int{}, []int{}, []M{}, []M{}
	for _, l := range d.lines() {
		if m := activated.FindStringSubmatch(l); m != nil {
			on = append(on, d.kHz(m[1], 50))
		} else if m := deactivated.FindStringSubmatch(l); m != nil {
			off = append(off, d.kHz(m[1], 50))
		} else if m := heard.FindStringSubmatch(l); m != nil {
			n, _ := strconv.Atoi(m[2])
			h = append(h, M{"c": strings.ToLower(m[1]), "b": d.kHz(m[3], 50), "n": n})
		} else if m := spotted.FindStringSubmatch(l); m != nil {
			sp = append(sp, M{"c": strings.ToLower(m[1]), "b": d.kHz(m[2], 50)})
		}
	}
	return M{"on": on, "off": off, "heard": h, "spotted": sp}
}

// announced returns the spots that each of the clients got since the last time.
func (d *driver) announced() [][]M {
	r := [][]M{}
	for i, c := range d.clients {
		l := []M{}
		all := c.spots()
		for _, s := range all[d.read[i]:] {
			m := dx.FindStringSubmatch(s)
			if m == nil {
				l = append(l, M{"de": s, "b": -1, "c": ""})
				continue
			}
			l = append(l, M{"de": m[1], "b": d.kHz(m[2], 110), "c": strings.ToLower(m[3])})
		}
		d.read[i] = len(all)
		r = append(r, l)
	}
	return r
}

// marks returns what is shown by the device.
func (d *driver) marks() M {
	l, s := []int{}, []M{}
	if t, ok := d.r.(*tciDevice); ok {
		for _, f := range t.shown(false) {
			l = append(l, d.bin(float64(f), 50))
		}
		sort.Ints(l)
		for c, f := range t.shown(true) {
			s = append(s, M{"c": strings.ToLower(c), "b": d.bin(float64(f), 50)})
		}
		sort.Slice(s, func(i, j int) bool { return s[i]["c"].(string) < s[j]["c"].(string) })
	}
	return M{"l": l, "s": s}
}

// ---- the steps ----

func (d *driver) step(in M) any {
	switch in["op"] {
	case "run":
		return d.run()
	case "client":
		c := dialClient(d.telnet)
		if c == nil {
			return M{"bad": "no connection"}
		}
		d.clients, d.read = append(d.clients, c), append(d.read, 0)
		said := func(t string) bool {
			return until(3*time.Second, func() bool {
				c.mu.Lock()
				defer c.mu.Unlock()
				return strings.Contains(c.text.String(), t)
			})
		}
		if !said("Enter your callsign: ") {
			return M{"bad": "no prompt"}
		}
		fmt.Fprint(c.conn, "n0call\r\n")
		if !said("welcome n0call\n") {
			return M{"bad": "no welcome"}
		}
		return M{"said": "welcome"}
	case "key":
		return d.key(in)
	case "bustle":
		return d.bustle(in)
	case "quiet":
		return d.quiet(in["t"].(int))
	case "hold":
		return M{"left": d.hold(in)}
	case "watch":
		return d.watch()
	case "lost":
		d.linked = false
		d.r.(*tciDevice).lose()
		time.Sleep(time.Duration(100+rand.Intn(1000)) * time.Millisecond)
		return M{"ended": d.ended()}
	case "back":
		return d.back()
	case "tune":
		t := d.r.(*tciDevice)
		t.tune(d.c.Trx, in["b"].(int))
		time.Sleep(100 * time.Millisecond)
		return M{"done": true}
	case "text":
		return d.text(in)
	case "sound":
		return d.sound(in)
	case "end":
		return d.end0(in["s"].(string))
	}
	panic(in)
}

func (d *driver) settle() { time.Sleep(600 * time.Millisecond) }

const carrier = 220 // blocks

func steady(key []bool) []bool {
	k := make([]bool, 100, 100+carrier+len(key))
	for i := 0; i < carrier; i++ {
		k = append(k, true)
	}
	return append(k, key...)
}

// key sends a carrier, and then a callsign some times.
func (d *driver) key(in M) any {
	b, call := in["b"].(int), in["c"].(string)
	words := []string{"vvv", "vvv"} // the first characters may be lost
	for i := 0; i < in["n"].(int); i++ {
		words = append(words, call)
	}
	words = append(words, "e")
	key := sim.Keyed(words, "plain")
	d.on(sim.Sig{Bin: float64(b), Level: float64(in["lv"].(int)), Key: steady(key)})
	d.settle()
	r := d.reports()
	return M{"r": r, "a": d.announced(), "m": d.marks(), "ended": d.ended()}
}

// bustle lets many signals sound, and waits for some time.
func (d *driver) bustle(in M) any {
	words := []string{"vvv", "vvv"}
	for i := 0; i < 5; i++ {
		words = append(words, in["c"].(string))
	}
	key := steady(sim.Keyed(words, "plain"))
	var sigs []sim.Sig
	for i := 0; i < in["n"].(int); i++ {
		sigs = append(sigs, sim.Sig{Bin: float64(60 + 15*i), Level: 30, Key: key})
	}
	if d.r != nil {
		d.mu.Lock()
		d.now, d.first, d.end = sigs, 0, len(key)
		d.mu.Unlock()
	}
	if d.pulse != nil {
		d.others = append(d.others, d.sounding())
	}
	for i := 0; i < in["idle"].(int); i++ { // clients that say nothing, and do not read
		if c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", d.telnet), time.Second); err == nil {
			d.others = append(d.others, func() { c.Close() })
		}
	}
	time.Sleep(time.Duration(in["ms"].(int)) * time.Millisecond)
	if in["deaf"].(bool) {
		if t, ok := d.r.(*tciDevice); ok {
			t.setDeaf()
			time.Sleep(20 * time.Millisecond)
		}
	}
	return M{"ended": d.ended()}
}

// sounding plays without an end until the returned function is called.
func (d *driver) sounding() func() {
	stop := make(chan struct{})
	var done sync.WaitGroup
	done.Add(1)
	go func() {
		defer done.Done()
		for {
			select {
			case <-stop:
				return
			case <-time.After(20 * time.Millisecond):
				d.pulse.play([]float64{700, 700, 700}, []bool{true, false}, 0.05, 0.5)
			}
		}
	}()
	return func() { close(stop); done.Wait() }
}

// quiet waits for a signal that is gone.
func (d *driver) quiet(s int) any {
	start := time.Now()
	off := []M{}
	when := func(ms int64) string {
		switch {
		case ms < int64(s)*1000-1200:
			return "early"
		case ms < int64(s)*1000+1500:
			return "in time"
		}
		return "late"
	}
	for time.Since(start) < time.Duration(s)*time.Second+1500*time.Millisecond {
		time.Sleep(20 * time.Millisecond)
		for _, b := range d.reports()["off"].([]int) {
			off = append(off, M{"b": b, "t": when(time.Since(start).Milliseconds())})
		}
	}
	return M{"off": off, "m": d.marks(), "ended": d.ended()}
}

// hold keeps a signal busy until the listener leaves it.
func (d *driver) hold(in M) string {
	s := in["t"].(int)
	var words []string
	for i := 0; i < 9; i++ {
		words = append(words, "vvv", "vvv", "vvv", "vvv")
	}
	sig := sim.Sig{Bin: float64(in["b"].(int)), Level: float64(in["lv"].(int)), Key: steady(sim.Keyed(words, "plain"))}
	d.mu.Lock()
	d.now, d.first, d.end = []sim.Sig{sig}, 0, len(sig.Key)
	d.mu.Unlock()
	start := time.Now()
	var on time.Time
	for time.Since(start) < time.Duration(s+4)*time.Second {
		time.Sleep(10 * time.Millisecond)
		r := d.reports()
		if len(r["on"].([]int)) > 0 && on.IsZero() {
			on = time.Now()
		}
		if off := r["off"].([]int); len(off) > 0 {
			ms := time.Since(on).Milliseconds()
			switch {
			case on.IsZero() || ms < int64(s)*1000-300:
				return "early"
			case ms < int64(s)*1000+1500:
				return "in time"
			}
			return "late"
		}
	}
	if on.IsZero() {
		return "never on"
	}
	return "never"
}

// prints tells if the words were printed.
func (d *driver) prints(in M) bool {
	s := d.p.printed()
	r := strings.Join(strings.Fields(s[d.printed:]), " ")
	d.printed = len(s)
	return strings.HasSuffix(" "+r, " "+in["w"].(string))
}

// text keys words on a frequency.
func (d *driver) text(in M) any {
	words := append([]string{"vvv"}, strings.Fields(in["w"].(string))...)
	d.on(sim.Sig{Bin: float64(in["b"].(int)), Level: float64(in["lv"].(int)), Key: sim.Keyed(words, "plain")})
	d.settle()
	return M{"printed": d.prints(in), "ended": d.ended()}
}

// sound plays words over the sources.
func (d *driver) sound(in M) any {
	pitch := make([]float64, len(sources))
	for i := range sources {
		if sources[i].name == in["src"] {
			pitch[i] = float64(in["pitch"].(int))
		}
	}
	dit := 1.2 / float64(in["wpm"].(int))
	d.pulse.play(pitch, unit(append([]string{"vvv"}, strings.Fields(in["w"].(string))...)), dit, float64(in["amp"].(int))/100)
	time.Sleep(400 * time.Millisecond)
	return M{"printed": d.prints(in), "ended": d.ended()}
}

var signals = map[string]syscall.Signal{"HUP": syscall.SIGHUP, "INT": syscall.SIGINT, "TERM": syscall.SIGTERM, "QUIT": syscall.SIGQUIT}

// end0 asks the program to end.
func (d *driver) end0(s string) any {
	if d.ended() {
		return M{"bad": "ended before"}
	}
	d.p.cmd.Process.Signal(signals[s])
	code, ended := d.p.exit(10 * time.Second)
	if !ended {
		if os.Getenv("VERIF_DEBUG") != "" {
			d.p.cmd.Process.Signal(syscall.SIGABRT)
			time.Sleep(time.Second)
		}
		return M{"bad": "still running"}
	}
	gone := true
	for _, c := range d.clients {
		select {
		case <-c.done:
		case <-time.After(2 * time.Second):
			gone = false
		}
	}
	for _, w := range d.watchers {
		select {
		case <-w:
		case <-time.After(2 * time.Second):
			gone = false
		}
	}
	stop := []string{}
	if t, ok := d.r.(*tciDevice); ok && t.isDeaf() || d.c.Hasty || d.c.Src == "tci" && !d.linked {
		return M{"code": code, "gone": gone, "telnet": accepts(d.telnet), "scope": accepts(d.scope)}
	} else if ok {
		until(time.Second, func() bool { return len(t.commands()) > 2 })
		stop = t.commands()[min(2, len(t.commands())):]
	}
	return M{"code": code, "gone": gone, "stop": stop, "l": d.marks()["l"], "telnet": accepts(d.telnet), "scope": accepts(d.scope), "debug": d.p.errors() != ""}
}

// unit returns the states of the key in units of a dit.
func unit(words []string) []bool {
	var r []bool
	run := func(down bool, n int) {
		for ; n > 0; n-- {
			r = append(r, down)
		}
	}
	run(false, 7)
	for _, w := range words {
		for _, c := range w {
			for _, s := range cw.Code[c] {
				if s == cw.Da {
					run(true, 3)
				} else {
					run(true, 1)
				}
				run(false, 1)
			}
			run(false, 2)
		}
		run(false, 4)
	}
	run(false, 30)
	return r
}
