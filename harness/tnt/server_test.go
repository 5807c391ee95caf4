package tnt

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ftl/sdrainer/telnet"
	"vh/vlib"
)

const patience = 20 * time.Second // of real time; the calls need at most a few seconds

// scenario is one server with its clients; its events make one behaviour of the specification Telnet.
type scenario struct {
	mu      sync.Mutex
	events  [][2]any
	s       *telnet.Server
	addr    string
	clients []*client
	version string
	t       int // time of the spots in seconds
	rnd     *rand.Rand
	nspots  int
	hung    bool
}

type client struct {
	sc      *scenario
	id      int
	conn    *net.TCPConn
	r       *bufio.Reader
	up      bool
	ended   chan struct{}
	seen    map[string]int
	answers int
	typed   int
	mute    atomic.Bool // what it receives is not recorded anymore
	stuck   bool
}

func (sc *scenario) ev(in M, out any) {
	sc.mu.Lock()
	defer sc.mu.Unlock()
	sc.events = append(sc.events, [2]any{in, out})
	vlib.Count("steps", 1)
}

func (sc *scenario) write(tr *vlib.Trace) {
	tr.Reset(nil)
	sc.mu.Lock()
	defer sc.mu.Unlock()
	for _, e := range sc.events {
		tr.Ev(e[0], e[1])
	}
}

// within runs f and reports whether it returned in time.
func within(f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	select {
	case <-done:
		return true
	case <-time.After(patience):
		return false
	}
}

func (sc *scenario) must(what string, f func()) bool {
	if sc.hung {
		return false
	}
	if !within(f) {
		sc.hung = true
		sc.mu.Lock()
		defer sc.mu.Unlock()
		h := sc.events
		if len(h) > 40 {
			h = h[len(h)-40:]
		}
		vlib.Violate("hang: "+what+" did not return within 20 seconds", M{"last events": h, "stacks": cut(vlib.Stacks())})
		return false
	}
	return true
}

func cut(s string) string {
	var r []string
	for _, b := range strings.Split(s, "\n\n") {
		if strings.Contains(b, "sdrainer/telnet") {
			r = append(r, b)
		}
	}
	if len(r) > 12 {
		r = r[:12]
	}
	return strings.Join(r, "\n\n")
}

func newScenario(seed int64, call string) *scenario {
	sc := &scenario{rnd: rand.New(rand.NewSource(seed)), version: fmt.Sprintf("v%d", seed%1000), t: 1700000000 % 86400}
	for try := 0; ; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		sc.addr = l.Addr().String()
		l.Close()
		sc.s, err = telnet.NewServer(sc.addr, call, sc.version)
		if err == nil {
			break
		}
		if try > 50 {
			panic(err)
		}
	}
	sc.ev(M{"op": "start", "de": call}, "ok")
	return sc
}

// dial connects a client; mode is passed on to setup the socket.
func (sc *scenario) dial(smallBuffer bool) *client {
	c := &client{sc: sc, ended: make(chan struct{}), seen: map[string]int{}}
	sc.mu.Lock()
	c.id = len(sc.clients) + 1
	sc.clients = append(sc.clients, c)
	sc.mu.Unlock()
	sc.ev(M{"op": "dial", "c": c.id}, "ok")
	d := net.Dialer{Timeout: patience}
	if smallBuffer {
		d.Control = func(_, _ string, raw syscall.RawConn) error {
			return raw.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 4096) })
		}
	}
	conn, err := d.Dial("tcp", sc.addr)
	if err != nil {
		sc.ev(M{"op": "connect", "c": c.id}, err.Error())
		close(c.ended)
		return c
	}
	c.conn = conn.(*net.TCPConn)
	c.r = bufio.NewReader(c.conn)
	want := fmt.Sprintf("SDRainer Version %s\nEnter your callsign: ", sc.version)
	buf := make([]byte, len(want))
	c.conn.SetReadDeadline(time.Now().Add(patience))
	n, err := io.ReadFull(c.r, buf)
	c.conn.SetReadDeadline(time.Time{})
	if string(buf[:n]) != want {
		sc.ev(M{"op": "connect", "c": c.id}, fmt.Sprintf("%q %v", buf[:n], err))
		close(c.ended)
		return c
	}
	c.up = true
	sc.ev(M{"op": "connect", "c": c.id}, "greeting and prompt")
	if !smallBuffer {
		go c.readLoop()
	}
	return c
}

var announcement = regexp.MustCompile(`^DX de (.*): +(\d+\.\d)  (\S+) +(.*?) *(\d{4})z$`)

var manyX = strings.Repeat("x", 1000)

// shorten abbreviates the long messages as token does, quickly: a reader must not be slow.
func shorten(line string) string {
	if len(line) < 100000 {
		return line
	}
	i := strings.Index(line, manyX)
	if i < 0 {
		return line
	}
	j := i
	for j < len(line) && line[j] == 'x' {
		j++
	}
	return fmt.Sprintf("%sx*%d%s", line[:i], j-i, line[j:])
}

// lag watches how late the processes of this machine get to run. The server drops a client that does not take its
// data for a second, so nothing can be said about the clients when they do not get to run.
type lag struct {
	stop chan struct{}
	max  atomic.Int64
}

func watchLag() *lag {
	l := &lag{stop: make(chan struct{})}
	go func() {
		for {
			start := time.Now()
			select {
			case <-l.stop:
				return
			case <-time.After(20 * time.Millisecond):
			}
			if d := time.Since(start).Milliseconds(); d > l.max.Load() {
				l.max.Store(d)
			}
		}
	}()
	return l
}

func (l *lag) tooMuch() bool {
	close(l.stop)
	return l.max.Load() > 250
}

func token(msg string) string {
	if len(msg) > 60 {
		return fmt.Sprintf("%c*%d", msg[0], len(msg))
	}
	return msg
}

func (c *client) readLoop() {
	defer close(c.ended)
	for {
		line, err := c.r.ReadString('\n')
		if err != nil {
			if line != "" && !c.mute.Load() {
				c.sc.ev(M{"op": "recv", "c": c.id}, M{"de": "", "f": 0, "call": "", "msg": "unfinished " + line, "t": -1})
			}
			return
		}
		line = shorten(strings.TrimSuffix(line, "\n"))
		piece := M{"de": "", "f": 0, "call": "", "msg": line, "t": -1}
		if m := announcement.FindStringSubmatch(line); m != nil {
			f, _ := strconv.ParseFloat(m[2], 64)
			hhmm, _ := strconv.Atoi(m[5])
			piece = M{"de": m[1], "f": int(math.Round(f * 10)), "call": m[3], "msg": token(m[4]), "t": hhmm}
		}
		c.sc.mu.Lock()
		if !c.mute.Load() {
			c.sc.events = append(c.sc.events, [2]any{M{"op": "recv", "c": c.id}, piece})
		}
		if piece["de"] == "" {
			c.answers++
		} else {
			c.seen[piece["call"].(string)]++
		}
		c.sc.mu.Unlock()
	}
}

func (c *client) send(parts ...string) {
	for i, p := range parts {
		if i > 0 {
			time.Sleep(time.Duration(c.sc.rnd.Intn(3)) * time.Millisecond)
		}
		c.conn.Write([]byte(p))
	}
}

// line sends a line, split at random.
func (c *client) line(text string) {
	c.typed++
	c.sc.ev(M{"op": "type", "c": c.id, "text": text}, "ok")
	text += "\n"
	k := c.sc.rnd.Intn(len(text) + 1)
	c.conn.SetNoDelay(true)
	c.send(text[:k], text[k:])
}

func (sc *scenario) live() []*client {
	var r []*client
	for _, c := range sc.clients {
		if c.up && !c.stuck {
			r = append(r, c)
		}
	}
	return r
}

// hangUp ends a client in one of several ways.
func (c *client) hangUp(how int) {
	c.sc.mu.Lock()
	c.mute.Store(true)
	c.up = false
	c.sc.events = append(c.sc.events, [2]any{M{"op": "gone", "c": c.id}, "ok"})
	c.sc.mu.Unlock()
	switch how {
	case 0:
		c.conn.Close()
	case 1:
		c.conn.SetLinger(0)
		c.conn.Close()
	case 2: // stops sending, but reads a little longer
		c.conn.CloseWrite()
		time.AfterFunc(50*time.Millisecond, func() { c.conn.Close() })
	}
}

var zones = []*time.Location{time.UTC, time.FixedZone("a", 2*3600), time.FixedZone("b", -7*3600-1800), time.FixedZone("c", 12*3600)}

func (sc *scenario) spotAt(call string, f int, msg string, t int) {
	sc.nspots++
	sc.ev(M{"op": "spot", "call": call, "f": f, "msg": token(msg), "t": t}, "ok")
	when := time.Unix(int64(t), 0).In(zones[sc.rnd.Intn(len(zones))])
	sc.must("Spot", func() { sc.s.Spot(call, float64(f), msg, when) })
}

// volley makes two spots at the same time, each of them several times, and waits until the clients got them.
func (sc *scenario) volley() {
	sc.t += 100000
	ss := []M{}
	for _, call := range []string{"A", "B"} {
		sc.nspots++
		ss = append(ss, M{"call": fmt.Sprintf("V%d%s", sc.nspots, call), "f": 7000000 + 1000*sc.rnd.Intn(5), "msg": "cq", "t": sc.t})
	}
	if sc.rnd.Intn(2) == 0 { // a callsign that was spotted before
		ss[0]["call"] = "DL1ABC"
	}
	sc.ev(M{"op": "volley", "ss": ss}, "ok")
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < 8; i++ {
		s := ss[i%2]
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			sc.s.Spot(s["call"].(string), float64(s["f"].(int)), "cq", time.Unix(int64(sc.t), 0))
		}()
	}
	close(start)
	sc.must("Spot at the same time", wg.Wait)
	last := ss[1]["call"].(string)
	for end := time.Now().Add(patience); time.Now().Before(end); time.Sleep(time.Millisecond) {
		sc.mu.Lock()
		ok := true
		for _, c := range sc.live() {
			ok = ok && c.seen[last] > 0
		}
		sc.mu.Unlock()
		if ok {
			break
		}
	}
}

// drain waits until all clients got everything.
func (sc *scenario) drain() {
	if sc.hung {
		return
	}
	last := fmt.Sprintf("Z%dZ", sc.nspots)
	sc.t += 1000000
	sc.spotAt(last, 14000000, "barrier", sc.t)
	end := time.Now().Add(patience)
	for _, c := range sc.live() {
		for time.Now().Before(end) {
			sc.mu.Lock()
			ok := c.seen[last] > 0 && c.answers >= c.typed
			sc.mu.Unlock()
			if ok {
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	time.Sleep(20 * time.Millisecond)
	sc.ev(M{"op": "drained"}, "ok")
}

// stop stops the server and checks what is left.
func (sc *scenario) stop(concurrent bool) {
	if sc.hung {
		return
	}
	sc.mu.Lock()
	for _, c := range sc.clients {
		c.mute.Store(true)
	}
	sc.mu.Unlock()
	var wg sync.WaitGroup
	if concurrent { // a second stop and spots at the same time
		wg.Add(2)
		go func() {
			defer wg.Done()
			sc.must("Stop (second, concurrent)", sc.s.Stop)
		}()
		go func() {
			defer wg.Done()
			for i := 0; i < 5; i++ {
				sc.must("Spot while stopping", func() {
					sc.s.Spot(fmt.Sprintf("C%dC", i), 7000000, "late", time.Unix(int64(sc.t+2000000), 0))
				})
			}
		}()
	}
	sc.must("Stop", sc.s.Stop)
	wg.Wait()
	if sc.hung {
		return
	}
	res := "ok, "
	for _, c := range sc.live() {
		select {
		case <-c.ended:
		case <-time.After(patience):
			res = "ok, connected "
		}
	}
	if res == "ok, " {
		res += "disconnected, "
	}
	l, err := net.Listen("tcp", sc.addr)
	if err != nil {
		res += err.Error()
	} else {
		res += "free"
		l.Close()
	}
	sc.ev(M{"op": "stop"}, res)
	for i := 0; i < 4 && !sc.hung; i++ {
		sc.must("Spot after Stop", func() { sc.s.Spot(fmt.Sprintf("L%dL", i), 7000000, "late", time.Unix(int64(sc.t+3000000), 0)) })
		sc.ev(M{"op": "late"}, "ok")
	}
	sc.must("Stop after Stop", sc.s.Stop)
	for _, c := range sc.clients {
		if c.conn != nil {
			c.conn.Close()
		}
	}
}

// finish ends a scenario that is not about stopping.
func (sc *scenario) finish() {
	for _, c := range sc.clients {
		c.mute.Store(true)
		if c.conn != nil {
			c.conn.Close()
		}
	}
	go sc.s.Stop()
}

func parallel(n, width int, tr *vlib.Trace, run func(seed int64) *scenario) {
	results := make([]*scenario, n)
	var wg sync.WaitGroup
	limit := make(chan struct{}, width)
	for i := range results {
		wg.Add(1)
		go func() {
			defer wg.Done()
			limit <- struct{}{}
			defer func() { <-limit }()
			if vlib.Violated() {
				return
			}
			for try := 0; try < 3; try++ {
				l := watchLag()
				sc := run(vlib.Seed*1000 + int64(i))
				if !l.tooMuch() {
					results[i] = sc
					break
				}
				vlib.Count("scenarios_discarded_machine_too_slow", 1)
			}
		}()
	}
	wg.Wait()
	for _, sc := range results {
		if sc != nil {
			sc.write(tr)
		}
	}
}

var calls = []string{"DL1ABC", "DL1ABC/P", "W1AW", "PA/DL1ABC", "G4X", "DL1AB"}

func (sc *scenario) randomSpot() {
	// frequencies around whole and half kilohertz
	base := []int{14020000, 7000000, 144300000, 1296100000}[sc.rnd.Intn(4)] + 1000*sc.rnd.Intn(3)
	f := base + []int{-501, -500, -499, -100, -51, -50, 0, 49, 50, 100, 499, 500, 501}[sc.rnd.Intn(13)]
	msg := []string{"", "cq", "20 db 18 wpm  cq", strings.Repeat("m", 40), "test 5nn"}[sc.rnd.Intn(5)]
	sc.spotAt(calls[sc.rnd.Intn(3)*sc.rnd.Intn(3)], f, msg, sc.t)
}

// TestC18: the silence period and the content of the lines.
func TestC18(t *testing.T) {
	tr := vlib.NewTrace("telnet.ndjson")
	vlib.Progress(M{"random": "C18"})
	parallel(vlib.N(48, 240), 24, tr, func(seed int64) *scenario {
		sc := newScenario(seed, []string{"local-#", "DL1ABC", "me"}[seed%3])
		period := 240
		if sc.rnd.Intn(3) > 0 {
			period = []int{1, 5, 60, 600, 0}[sc.rnd.Intn(5)]
			sc.ev(M{"op": "silence", "p": period}, "ok")
			sc.s.SetSilencePeriod(time.Duration(period) * time.Second)
		}
		sc.dial(false)
		if seed%4 == 0 {
			sc.dial(false)
		}
		one := sc.rnd.Intn(2) == 0
		for i := 0; i < vlib.N(30, 60) && !sc.hung; i++ {
			if sc.rnd.Intn(4) > 0 {
				sc.t += []int{0, 1, period / 2, period - 1, period, period + 1, period*2 + 3, 3600}[sc.rnd.Intn(8)]
			} else if sc.rnd.Intn(4) == 0 {
				sc.t -= sc.rnd.Intn(period + 2)
			}
			if seed%3 == 1 && i%2 == 0 {
				sc.volley()
				continue
			}
			if one { // a single callsign on a single frequency
				sc.spotAt("DL1ABC", 14020000+sc.rnd.Intn(400), "cq", sc.t)
			} else {
				sc.randomSpot()
			}
		}
		sc.drain()
		sc.finish()
		return sc
	})
	vlib.Exit()
}

// TestC19: announcements while clients come and go.
func TestC19(t *testing.T) {
	tr := vlib.NewTrace("telnet.ndjson")
	vlib.Progress(M{"random": "C19"})
	parallel(vlib.N(48, 240), 24, tr, func(seed int64) *scenario {
		sc := newScenario(seed, "me")
		for i := 0; i < 1+sc.rnd.Intn(5); i++ {
			sc.dial(false)
		}
		var wg sync.WaitGroup
		for i := 0; i < vlib.N(30, 80) && !sc.hung; i++ {
			switch k := sc.rnd.Intn(20); {
			case k < 2 && len(sc.live()) < 8:
				wg.Wait() // the slice of clients is changed by dial
				sc.dial(false)
			case k < 4 && len(sc.live()) < 8: // while spots go on
				wg.Wait()
				wg.Add(1)
				go func() {
					defer wg.Done()
					sc.dial(false)
				}()
				for j := 0; j < 3; j++ {
					sc.t += 10000
					sc.spotAt(fmt.Sprintf("P%dP", sc.nspots), 14020000, "cq", sc.t)
				}
				wg.Wait()
			case k < 7 && len(sc.live()) > 1: // one or several at the same time
				l := sc.live()
				for j := 0; j <= sc.rnd.Intn(len(l)); j++ {
					l[j].hangUp(sc.rnd.Intn(3))
				}
			case k < 8 && len(sc.live()) > 0:
				l := sc.live()
				l[sc.rnd.Intn(len(l))].line(fmt.Sprintf("N%dN", i))
			default:
				sc.t += 10000
				sc.spotAt(fmt.Sprintf("K%dK", sc.nspots), 14020000, "cq", sc.t)
			}
		}
		wg.Wait()
		sc.drain()
		sc.finish()
		return sc
	})
	vlib.Exit()
}

// TestC20: clients that stop reading, vanish or flood the server; stopping.
func TestC20(t *testing.T) {
	tr := vlib.NewTrace("telnet.ndjson")
	vlib.Progress(M{"random": "C20"})
	parallel(vlib.N(16, 64), 4, tr, func(seed int64) *scenario {
		sc := newScenario(seed, "me")
		good := sc.dial(false)
		_ = good
		var stuck []*client
		for i := 0; i < 1+int(seed)%3; i++ {
			c := sc.dial(true)
			if c.conn == nil {
				continue
			}
			c.stuck = true
			sc.ev(M{"op": "gone", "c": c.id}, "ok") // it does not keep reading
			stuck = append(stuck, c)
		}
		spotLong := func(n int) {
			for i := 0; i < n && !sc.hung; i++ {
				sc.t += 10000
				sc.spotAt(fmt.Sprintf("K%dK", sc.nspots), 14020000, strings.Repeat("x", 300000), sc.t)
			}
		}
		if seed%4 == 3 { // flooding: lines without end, answers are not read
			for _, c := range stuck {
				c.conn.SetWriteDeadline(time.Now().Add(2 * time.Second))
				go c.conn.Write([]byte(strings.Repeat("a\n", 2000000)))
			}
		}
		spotLong(40)
		if seed%2 == 0 { // the stuck clients find their connections closed in the end
			sc.drain()
			for _, c := range stuck {
				c.conn.SetReadDeadline(time.Now().Add(patience))
				_, err := io.Copy(io.Discard, c.conn)
				if ne, ok := err.(net.Error); ok && ne.Timeout() {
					sc.ev(M{"op": "dropped", "c": c.id}, "open")
				} else {
					sc.ev(M{"op": "dropped", "c": c.id}, "closed")
				}
			}
		} else { // stop with clients that just got stuck
			c := sc.dial(true)
			if c.conn != nil {
				c.stuck = true
				sc.ev(M{"op": "gone", "c": c.id}, "ok")
			}
			spotLong(3)
		}
		sc.stop(seed%3 == 0)
		return sc
	})
	if vlib.Violated() {
		vlib.Exit()
	}
	synctest.Test(t, func(t *testing.T) {
		testConn()
		vlib.Exit()
	})
}

// TestC21: the dialogue.
func TestC21(t *testing.T) {
	tr := vlib.NewTrace("telnet.ndjson")
	vlib.Progress(M{"random": "C21"})
	parallel(vlib.N(24, 96), 24, tr, func(seed int64) *scenario {
		sc := newScenario(seed, "me")
		for i := 0; i < 3; i++ {
			sc.dial(false)
		}
		for i := 0; i < vlib.N(25, 60) && !sc.hung; i++ {
			l := sc.live()
			if len(l) == 0 {
				break
			}
			switch sc.rnd.Intn(3) {
			case 0:
				sc.t += 10000
				sc.spotAt(fmt.Sprintf("K%dK", sc.nspots), 14020000, "cq", sc.t)
			default:
				l[sc.rnd.Intn(len(l))].line([]string{"DL1ABC", "x", "sh/dx", "Jürgen", "set/name Ed", "a b c"}[sc.rnd.Intn(6)])
			}
		}
		sc.drain()
		sc.finish()
		return sc
	})
	if vlib.Violated() {
		vlib.Exit()
	}
	synctest.Test(t, func(t *testing.T) {
		testConn()
		vlib.Exit()
	})
}
