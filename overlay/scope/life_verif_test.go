package scope

import (
	"fmt"
	"math/rand"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/ftl/sdrainer/scope/pb"
	"vh/vlib"
)

// freeAddress finds an address outside of the range the system takes for connections.
func freeAddress(r *rand.Rand) string {
	for {
		address := fmt.Sprintf("127.0.0.1:%d", 15000+r.Intn(15000))
		l, err := net.Listen("tcp", address)
		if err == nil {
			l.Close()
			return address
		}
	}
}

// ---- graph ScopeLife ----

type life struct {
	r       *rand.Rand
	address string
	server  *ScopeServer
	on      bool
	taken   net.Listener
	viewers map[int]*viewer
	storms  int
}

func (d *life) Reset() {
	if d.server != nil {
		d.Step(vlib.M{"op": "stop"})
		if d.taken != nil {
			d.taken.Close()
		}
		for _, v := range d.viewers {
			v.cancel()
		}
	}
	*d = life{r: d.r, storms: d.storms, address: freeAddress(d.r), viewers: map[int]*viewer{}}
	d.server = NewScopeServer(d.address)
}

// settled waits until the server is on and reachable, or off with its address free again.
func (d *life) settled(on bool) bool {
	return eventually(func() bool {
		if d.server.Active() != on {
			return false
		}
		if d.taken != nil {
			return true
		}
		if on {
			c, err := net.Dial("tcp", d.address)
			if err == nil {
				c.Close()
			}
			return err == nil
		}
		l, err := net.Listen("tcp", d.address)
		if err == nil {
			l.Close()
		}
		return err == nil
	})
}

func (d *life) show() bool {
	return bounded(func() {
		d.server.ShowTimeFrame(randomTime(d.r))
		d.server.ShowSpectralFrame(randomSpectral(d.r, d.r.Intn(5)))
	})
}

// look shows frames until the viewer receives one, or the end of its stream.
func (d *life) look(v *viewer) string {
	for limit := time.Now().Add(patience); time.Now().Before(limit); {
		if !d.show() {
			return "stuck"
		}
		if it, ok := v.recv("", 3*time.Millisecond); ok {
			if it.kind == "" {
				return "ended"
			}
			for {
				it, ok := v.recv("", time.Millisecond)
				if !ok {
					return "frame"
				}
				if it.kind == "" {
					return "ended"
				}
			}
		}
	}
	return "nothing"
}

func (d *life) Step(in vlib.M) any {
	switch vlib.Str(in["op"]) {
	case "start":
		var err error
		if !bounded(func() { err = d.server.Start() }) {
			return "stuck"
		}
		if d.taken == nil {
			d.on = d.on || err == nil
		}
		if !d.settled(d.on) {
			return "not settled"
		}
		if err != nil {
			return "error"
		}
		return "ok"
	case "stop":
		if !bounded(d.server.Stop) {
			return "stuck"
		}
		d.on = false
		if !d.settled(false) {
			return "not settled"
		}
		return "ok"
	case "active":
		return d.server.Active()
	case "show":
		if !d.show() {
			return "stuck"
		}
		return "ok"
	case "watch":
		v := newViewer(d.address, false, false)
		if v == nil {
			return "failed"
		}
		got := d.look(v)
		if got == "ended" {
			v.cancel()
			return "failed"
		}
		d.viewers[vlib.Int(in["s"])] = v
		return got
	case "look":
		s := vlib.Int(in["s"])
		got := d.look(d.viewers[s])
		if got == "ended" {
			d.viewers[s].cancel()
			delete(d.viewers, s)
		}
		return got
	case "occupy":
		l, err := net.Listen("tcp", d.address)
		if err != nil {
			return "failed"
		}
		d.taken = l
		return "ok"
	case "release":
		d.taken.Close()
		d.taken = nil
		return "ok"
	case "flip":
		if !bounded(func() { d.server.Start(); d.delay(); d.server.Stop() }) {
			return "stuck"
		}
		d.on = false
		if !d.settled(false) {
			return "not settled"
		}
		return "returned"
	case "bounce":
		var err error
		if !bounded(func() { d.server.Stop(); d.delay(); err = d.server.Start() }) {
			return "stuck"
		}
		d.on = err == nil && d.taken == nil
		if !d.settled(d.on) {
			return "not settled"
		}
		return map[bool]string{true: "on", false: "off"}[d.on]
	case "storm":
		d.storms++
		return d.storm()
	}
	panic(fmt.Sprint(in))
}

func (d *life) delay() {
	if d.r.Intn(2) == 0 {
		time.Sleep(time.Duration(d.r.Intn(300)) * time.Microsecond)
	}
}

// storm makes all calls at the same time, and finally stops the server.
func (d *life) storm() string {
	var calls sync.WaitGroup
	quit := make(chan struct{})
	for i := 0; i < 6; i++ {
		r := rand.New(rand.NewSource(d.r.Int63()))
		calls.Add(1)
		go func() {
			defer calls.Done()
			for {
				select {
				case <-quit:
					return
				default:
				}
				if r.Intn(3) == 0 {
					time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
				}
				switch n := r.Intn(12); {
				case n < 3:
					d.server.Start()
				case n < 5:
					d.server.Stop()
				case n < 6:
					d.server.Active()
				case n < 7:
					d.server.Addr()
				case n < 11:
					d.server.ShowTimeFrame(&TimeFrame{Values: map[ChannelID]float64{"x": 1}})
				default:
					d.server.ShowSpectralFrame(&SpectralFrame{Values: []float64{1, 2}})
				}
				vlib.Count("calls", 1)
			}
		}()
	}
	time.Sleep(time.Duration(1+d.r.Intn(15)) * time.Millisecond)
	close(quit)
	if !bounded(calls.Wait) {
		return "stuck"
	}
	if !bounded(d.server.Stop) {
		return "stuck"
	}
	d.on = false
	if !d.settled(false) {
		return "not settled"
	}
	return "returned"
}

// ---- the calls inside of a running server ----

// crowd shows frames and opens streams while the server stops: every call returns, and every stream ends.
func crowd(r *rand.Rand) {
	vlib.Progress(vlib.M{"scenario": "crowd"})
	server, err := newGRPCServer("127.0.0.1:0", 1+r.Intn(3))
	if err != nil {
		panic(err)
	}
	ended := make(chan struct{})
	go func() {
		server.Start()
		close(ended)
	}()
	var lock sync.Mutex
	streams := []chan *pb.Frame{server.getFrameStream()}
	var calls sync.WaitGroup
	for i := 0; i < 6; i++ {
		r := rand.New(rand.NewSource(r.Int63()))
		calls.Add(1)
		go func() {
			defer calls.Done()
			for n := r.Intn(40); n > 0; n-- {
				switch r.Intn(4) {
				case 0:
					s := server.getFrameStream()
					lock.Lock()
					streams = append(streams, s)
					lock.Unlock()
				default:
					server.SendFrame(&pb.Frame{})
				}
			}
		}()
	}
	time.Sleep(time.Duration(r.Intn(150)) * time.Microsecond)
	if !bounded(server.Stop) || !bounded(func() { <-ended }) {
		vlib.Violate("the stop of the scope server does not return", vlib.M{"stacks": vlib.Stacks()})
		return
	}
	if !bounded(calls.Wait) {
		vlib.Violate("a call is stuck after the scope server stopped", vlib.M{"stacks": vlib.Stacks()})
		return
	}
	for _, s := range streams {
		if !bounded(func() {
			for range s {
			}
		}) {
			vlib.Violate("a stream does not end when the scope server stops", vlib.M{"streams": len(streams)})
			return
		}
	}
	vlib.Count("crowds", 1)
}

func TestC23(t *testing.T) {
	limit := vlib.Seconds(60, 400)
	d := &life{r: vlib.Rand}
	vlib.LoadGraph("life").Walk("ScopeLife", d, 1<<30, 60, limit)
	vlib.LoadGraph("stop").Walk("Scope (with stop)", &fanout{cap: 1, numbers: 3}, 1<<30, 60, limit)
	for i := 0; i < vlib.N(1200, 20000) && !vlib.Violated(); i++ {
		crowd(vlib.Rand)
	}
	// more storms, also with an address that is in use
	for i := 0; i < vlib.N(250, 4000) && !vlib.Violated(); i++ {
		vlib.Progress(vlib.M{"scenario": "storm", "taken": i%2 == 1})
		d.Reset()
		if i%2 == 1 {
			d.Step(vlib.M{"op": "occupy"})
		}
		if o := d.storm(); o != "returned" {
			vlib.Violate("concurrent calls of the scope server do not all return, or it does not stop", vlib.M{"outcome": o, "taken": i%2 == 1, "stacks": vlib.Stacks()})
		}
		vlib.Count("storms", 1)
	}
	vlib.Exit()
}
