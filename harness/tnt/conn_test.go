package tnt

import (
	"errors"
	"io"
	"math/rand"
	"net"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/ftl/sdrainer/telnet"
	"vh/vlib"
)

type M = vlib.M

// fakeConn is a connection whose client can stop reading, vanish and hang up.
type fakeConn struct {
	mu      sync.Mutex
	changed chan struct{}
	in      [][]byte
	written []byte
	stuck   bool
	broken  bool
	eof     bool
	closed  bool
}

func newFakeConn() *fakeConn { return &fakeConn{changed: make(chan struct{})} }

func (c *fakeConn) update(f func()) {
	c.mu.Lock()
	defer c.mu.Unlock()
	f()
	close(c.changed)
	c.changed = make(chan struct{})
}

func (c *fakeConn) Read(p []byte) (int, error) {
	for {
		c.mu.Lock()
		switch {
		case c.closed:
			c.mu.Unlock()
			return 0, net.ErrClosed
		case c.broken:
			c.mu.Unlock()
			return 0, errors.New("connection reset by peer")
		case len(c.in) > 0:
			n := copy(p, c.in[0])
			c.in[0] = c.in[0][n:]
			if len(c.in[0]) == 0 {
				c.in = c.in[1:]
			}
			c.mu.Unlock()
			return n, nil
		case c.eof:
			c.mu.Unlock()
			return 0, io.EOF
		}
		ch := c.changed
		c.mu.Unlock()
		<-ch
	}
}

func (c *fakeConn) Write(p []byte) (int, error) {
	for {
		c.mu.Lock()
		switch {
		case c.closed:
			c.mu.Unlock()
			return 0, net.ErrClosed
		case c.broken:
			c.mu.Unlock()
			return 0, errors.New("broken pipe")
		case !c.stuck:
			c.written = append(c.written, p...)
			c.mu.Unlock()
			return len(p), nil
		}
		ch := c.changed
		c.mu.Unlock()
		<-ch
	}
}

func (c *fakeConn) Close() error {
	c.mu.Lock()
	was := c.closed
	c.mu.Unlock()
	if was {
		return net.ErrClosed
	}
	c.update(func() { c.closed = true })
	return nil
}

func (c *fakeConn) take() ([]int, int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	w := make([]int, len(c.written))
	for i, b := range c.written {
		w[i] = int(b)
	}
	c.written = nil
	x := 0
	if c.closed {
		x = 1
	}
	return w, x
}

// bounded runs f and reports whether it returned within a minute of the bubble's time.
func bounded(f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	t := time.NewTimer(time.Minute)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}

type connDriver struct {
	c    *telnet.Connection
	fake *fakeConn
}

func (d *connDriver) Reset() {
	if d.fake != nil {
		d.fake.Close() // let the goroutines of the previous connection end
	}
	d.c, d.fake = nil, nil
}

func bytesOf(v any) []byte {
	var r []byte
	switch l := v.(type) {
	case []any:
		for _, b := range l {
			r = append(r, byte(vlib.Int(b)))
		}
	case []int:
		for _, b := range l {
			r = append(r, byte(b))
		}
	}
	return r
}

func (d *connDriver) Step(in M) any {
	text := bytesOf(in["t"])
	r := "ok"
	call := func(f func()) {
		if !bounded(f) {
			r = "hang"
		}
	}
	say := func() {
		n, err := d.c.Write(append([]byte{}, text...))
		if err != nil {
			r = "err"
		} else if n != len(text) {
			r = "short"
		}
	}
	switch in["op"] {
	case "new":
		d.fake = newFakeConn()
		call(func() { d.c = telnet.NewConnection(d.fake, string(text)) })
	case "in":
		d.fake.update(func() { d.fake.in = append(d.fake.in, append([]byte{}, text...)) })
	case "say":
		call(say)
	case "flood":
		for i := 0; i < 10000 && r == "ok"; i++ {
			call(say)
		}
	case "stick":
		d.fake.update(func() { d.fake.stuck = true })
	case "unstick":
		d.fake.update(func() { d.fake.stuck = false })
	case "eof":
		d.fake.update(func() { d.fake.eof = true })
	case "break":
		d.fake.update(func() { d.fake.broken = true })
	case "close":
		call(d.c.Close)
	case "closetwice":
		done := make(chan struct{})
		go func() {
			defer close(done)
			d.c.Close()
		}()
		call(d.c.Close)
		call(func() { <-done })
	case "closewhilesaying":
		done := make(chan string, 1)
		go func() {
			_, err := d.c.Write(append([]byte{}, text...))
			if err != nil {
				done <- "err"
			} else {
				done <- "ok"
			}
		}()
		call(d.c.Close)
		if r == "ok" {
			call(func() { r = <-done })
		}
	}
	synctest.Wait()
	w, x := d.fake.take()
	return M{"r": r, "w": w, "x": x}
}

// testConn runs the model TelnetConn on single connections. It must run in a bubble.
func testConn() {
	g := vlib.LoadGraph("telnetconn")
	g.Idle = 200
	g.Walk("TelnetConn", &connDriver{}, 100000, 300, 60*time.Second)

	tr := vlib.NewTrace("telnetconn.ndjson")
	rnd := rand.New(rand.NewSource(vlib.Seed))
	d := &connDriver{}
	for n := 0; n < vlib.N(60, 600); n++ {
		vlib.Progress(M{"n": n})
		d.Reset()
		tr.Reset(nil)
		var last M
		step := func(op string, t string) {
			b := []int{}
			for i := 0; i < len(t); i++ {
				b = append(b, int(t[i]))
			}
			in := M{"op": op, "t": b}
			vlib.ProgressStep(in)
			last = d.Step(in).(M)
			tr.Ev(in, last)
		}
		step("new", "SDRainer\n")
		said := func() string { return "DX de me: " + strings.Repeat("x", rnd.Intn(30)) + "\n" }
		stuck, eof, open := false, false, 0
		for i := 0; i < 25 && last["x"] == 0 && last["r"] == "ok"; i++ {
			switch k := rnd.Intn(30); {
			case k < 12 && !eof:
				var s strings.Builder
				for j := rnd.Intn(12); j >= 0; j-- {
					switch rnd.Intn(6) {
					case 0:
						if open < 4 || !stuck {
							s.WriteByte('\n')
							open++
						}
					case 1:
						s.WriteByte(byte(128 + rnd.Intn(128)))
					case 2:
						s.WriteString(strings.Repeat("z", rnd.Intn(4)))
					default:
						s.WriteByte(byte(32 + rnd.Intn(95)))
					}
				}
				if rnd.Intn(20) == 0 && !stuck {
					s.WriteString(strings.Repeat("long", 300))
				}
				if s.Len() > 0 {
					step("in", s.String())
				}
			case k < 20:
				if !stuck || open < 4 {
					open++
					step("say", said())
				}
			case k < 22 && !stuck:
				stuck, open = true, 0
				step("stick", "")
			case k < 26 && stuck:
				stuck = false
				step("unstick", "")
			case k == 26 && !eof:
				eof = true
				step("eof", "")
			case k == 27:
				step([]string{"close", "closetwice"}[rnd.Intn(2)], "")
			case k == 28:
				step("closewhilesaying", said())
			case k == 29:
				step("break", "")
				step("say", said())
			}
		}
	}
	d.Reset()
}
