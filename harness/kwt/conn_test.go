package kwt

import (
	"fmt"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ftl/sdrainer/kiwi"
	"vh/vlib"
	"vh/wsnet"
)

type M = vlib.M

// bounded runs f and reports whether it returned within ten minutes of the bubble's time.
func bounded(f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	t := time.NewTimer(10 * time.Minute)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}

// handler notes what the client reports.
type handler struct {
	mu     sync.Mutex
	events []string
	rates  []int
	data   [][]float32
}

func (h *handler) Connected(rate int) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.events = append(h.events, fmt.Sprintf("rate %d", rate))
}

func (h *handler) IQData(rate int, data []float32) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.events = append(h.events, fmt.Sprintf("data %d %v", rate, data))
	h.data = append(h.data, data)
	h.rates = append(h.rates, rate)
}

func (h *handler) take() []string {
	h.mu.Lock()
	defer h.mu.Unlock()
	r := h.events
	h.events = nil
	return r
}

const (
	user     = "N0 CALL/ü"
	password = "p&ss=wörd +1"
	center   = 7030123
	width    = 9000
)

// the messages that open the connection: authentication, set-up, and tuning
var opening = []string{
	"SET auth t=kiwi p=p%26ss%3Dw%C3%B6rd+%2B1",
	"SET ident_user=N0+CALL%2F%C3%BC",
	"SET AR OK in=12000 out=48000",
	"SET squelch=0 max=0",
	"SET lms_autonotch=0",
	"SET getattn=0",
	"SET gen=0 mix=-1",
	"SET agc=0 hang=0 thresh=-100 slope=6 decay=1000 manGain=50",
	"SET compression=0",
	"SET mod=iq low_cut=-4500 high_cut=4500 freq=7030.123",
}

func sound(header int, samples []int) []byte {
	b := append([]byte("SND"), make([]byte, header)...)
	for i := range b[3:] {
		b[3+i] = byte(37*i + 11)
	}
	for _, s := range samples {
		b = append(b, byte(uint16(s)>>8), byte(uint16(s)))
	}
	return b
}

type connDriver struct {
	net     *wsnet.Net
	conn    *wsnet.Conn
	h       *handler
	mu      sync.Mutex
	client  *kiwi.Client
	err     error
	done    bool
	told    bool
	closing bool
}

func (d *connDriver) Reset() {
	if d.conn != nil {
		d.conn.HangUp()
		synctest.Wait()
		d.mu.Lock()
		c := d.client
		d.mu.Unlock()
		if c != nil {
			bounded(c.Close)
		}
	}
	*d = connDriver{net: &wsnet.Net{}, h: &handler{}}
	wsnet.Install(d.net)
}

func (d *connDriver) open() {
	c, err := kiwi.Open("127.0.0.1:8073", user, password, center, width, d.h)
	d.mu.Lock()
	defer d.mu.Unlock()
	d.client, d.err, d.done = c, err, true
}

func (d *connDriver) returned() bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.done
}

func (d *connDriver) Step(in M) any {
	defer synctest.Wait()
	switch op := vlib.Str(in["op"]); op {
	case "dial":
		d.net.Refuse = in["kind"] == "refused"
		d.net.Reject = in["kind"] == "rejected"
		d.conn, d.done, d.client = nil, false, nil
		go d.open()
		synctest.Wait()
		if d.returned() {
			if d.err == nil {
				return "no error"
			}
			if c := d.net.Last(); c != nil && !c.Closed() {
				return "not closed"
			}
			return "error"
		}
		d.conn = d.net.Last()
		if d.conn == nil || !d.conn.Shaken() {
			return "not connected"
		}
		return "connected"
	case "returned":
		return d.returned()
	case "take":
		d.conn.SetCredit(1)
		synctest.Wait()
		d.conn.SetCredit(0)
		l := d.conn.Messages()
		if len(l) == 0 {
			return "nothing"
		}
		if len(l) > 1 {
			return l
		}
		for i, x := range opening {
			if l[0] == x {
				return i + 1
			}
		}
		if l[0] == "SET keepalive" {
			return "keepalive"
		}
		return "? " + l[0]
	case "tick":
		time.Sleep(time.Second)
		return "ok"
	case "say":
		samples := []int{1, -1, 32767, -32768, 0, 5}
		expected := "rate 12000"
		if d.told {
			d.conn.Binary(sound(17, samples))
			var l []float32
			for _, s := range samples {
				l = append(l, float32(s)/32767)
			}
			expected = fmt.Sprintf("data 12000 %v", l)
		} else {
			d.conn.Binary([]byte("MSG audio_rate=12000"))
		}
		synctest.Wait()
		ev := d.h.take()
		switch {
		case len(ev) == 0:
			d.told = false
			return "lost"
		case len(ev) == 1 && ev[0] == expected:
			d.told = true
			return expected[:4]
		}
		return strings.Join(ev, "; ")
	case "busy":
		d.conn.Binary([]byte("MSG too_busy=1"))
	case "badp":
		d.conn.Binary([]byte("MSG badp=1"))
	case "down":
		d.conn.Binary([]byte("MSG down=1"))
	case "hangup":
		d.conn.HangUp()
	case "closeframe":
		d.conn.Frame(8, []byte{3, 232})
		time.Sleep(2 * time.Second) // the time to answer it
	case "garbage":
		d.conn.Raw([]byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff})
		time.Sleep(2 * time.Second)
	case "readbreak":
		d.conn.BreakReads()
	case "writebreak":
		d.conn.BreakWrites()
	case "close":
		d.mu.Lock()
		c := d.client
		d.mu.Unlock()
		if c == nil {
			return "returned"
		}
		var calls sync.WaitGroup
		for i := vlib.Int(in["count"]); i > 0; i-- {
			calls.Add(1)
			go func() {
				defer calls.Done()
				c.Close()
			}()
		}
		if !bounded(calls.Wait) {
			return "stuck"
		}
		return "returned"
	case "closed":
		return d.conn.Closed()
	default:
		panic(op)
	}
	return "ok"
}

func TestC24(t *testing.T) {
	g := vlib.LoadGraph("conn")
	g.Idle = 50
	synctest.Test(t, func(t *testing.T) {
		g.Walk("KiwiConn", &connDriver{}, 1<<30, 80, vlib.Seconds(60, 300))
		vlib.Exit()
	})
}
