package rxt

import (
	"io"
	"log"
	"math"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ftl/sdrainer/rx"
	"github.com/ftl/sdrainer/scope"
	"vh/sim"
	"vh/vlib"
)

// ---- concurrent calls, in real time ----

type call struct {
	C string
	V int
}

type stormLog struct {
	mu   sync.Mutex
	tr   *vlib.Trace
	seen map[string]int
	user *rand.Rand
	busy bool
}

func (l *stormLog) line(op string, k int, c string, v int) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if op == "ret" {
		l.tr.Ev(M{"op": op, "k": k, "c": c}, v)
		return
	}
	l.tr.Ev(M{"op": op, "k": k, "c": c, "v": v}, 0)
}

func (l *stormLog) report(op, name string, f int) {
	l.mu.Lock()
	k, ok := l.seen[name]
	if !ok {
		k = len(l.seen) + 1
		l.seen[name] = k
	}
	l.tr.Ev(M{"op": op, "k": k, "c": "", "v": int(math.Round(float64(f-frequency0) / 1000000))}, 0)
	vlib.Count("reports "+op, 1)
	pause := time.Duration(0)
	if l.busy {
		pause = time.Duration(l.user.Intn(2000)) * time.Microsecond
	}
	l.mu.Unlock()
	if pause > 1500*time.Microsecond {
		time.Sleep(pause)
	}
}
func (l *stormLog) ListenerActivated(n string, f int)   { l.report("on", n, f) }
func (l *stormLog) ListenerDeactivated(n string, f int) { l.report("off", n, f) }
func (l *stormLog) CallsignDecoded(n string, c string, f int, count int, weight int) {
	l.report("dec", n, f)
}
func (l *stormLog) CallsignSpotted(n string, c string, f int) { l.report("dec", n, f) }
func (l *stormLog) SpotTimeout(n string, c string, f int)     { l.report("dec", n, f) }

// storm lets several callers do what they want, and records when their calls begin and end, and the reports.
func storm(tr *vlib.Trace, mode rx.ReceiverMode, calls int) {
	r := vlib.Rand
	tr.Reset(nil)
	calm := r.Intn(2) == 0
	if calm {
		calls /= 3
	}
	l := &stormLog{tr: tr, seen: map[string]int{}, user: rand.New(rand.NewSource(r.Int63())), busy: r.Intn(2) == 0}
	var now atomic.Int64
	start := time.Date(2024, 2, 28, 23, 58, 0, 0, time.UTC)
	rc := rx.NewReceiver[float32, int]("", mode, rx.ClockFunc(func() time.Time { return start.Add(time.Duration(now.Load()) * time.Second) }))
	rc.AddReporter(l)
	rc.SetEdgeWidth(4)
	rc.SetCenterFrequency(center(0))
	if mode == rx.DecodeMode {
		rc.SetVFOOffset(1000)
	}
	iqs := map[int]*sim.IQ{1: sim.NewIQ(sizes[1][1]), 2: sim.NewIQ(sizes[2][1])}

	blocks := map[int][][]float32{}
	for size, q := range iqs {
		key := append(make([]bool, 0, 400), sim.Keyed(strings.Fields("dl1abc k3lr"), "plain")...)
		for i := 0; i < len(key)+150; i++ {
			b := append([]complex128{}, q.Noise...)
			for n, v := range q.Tone(float64(sizes[size][1]/2+11), 40) {
				if i >= len(key) || key[i] {
					b[n] += v
				}
			}
			if i%200 < 100 {
				for n, v := range q.Tone(float64(sizes[size][1]/2-20), 40) {
					b[n] += v
				}
			}
			blocks[size] = append(blocks[size], q.Samples(b))
		}
	}

	const callers = 5
	var current [callers + 1]atomic.Value
	var wg sync.WaitGroup
	end := make(chan struct{})
	perform := func(k int, c string, v int) {
		current[k].Store(call{c, v})
		result := 0
		l.line("call", k, c, v)
		switch c {
		case "start":
			s := sizes[1+v]
			rc.Start(s[0], s[1])
		case "stop":
			rc.Stop()
		case "center":
			rc.SetCenterFrequency(center(v))
		case "get":
			f := rc.CenterFrequency()
			result = (f - frequency0) / 1000000
		case "silence":
			rc.SetSilenceTimeout(time.Duration(5+v) * time.Second)
		case "busy":
			rc.SetAttachmentTimeout(time.Duration(20+v) * time.Second)
		case "thr":
			rc.SetPeakThreshold(float32(10 + v))
		case "edge":
			rc.SetEdgeWidth(4 + v)
		case "deb":
			rc.SetSignalDebounce(1 + v)
		case "vfo":
			rc.SetVFOOffset(-1000 * v)
		case "scope":
			rc.SetScope(scope.NewNullScope())
		}
		l.line("ret", k, c, result)
		current[k].Store(call{"", 0})
		vlib.Count("calls", 1)
	}
	// the blocks
	wg.Add(1)
	seed := r.Int63()
	go func() {
		defer wg.Done()
		r := rand.New(rand.NewSource(seed))
		at := 0
		for {
			select {
			case <-end:
				return
			default:
			}
			for i := 0; i < 50; i++ {
				for size := 1; size <= 2; size++ {
					rc.IQData(sizes[size][0], blocks[size][at%len(blocks[size])])
				}
				at++
			}
			if calm {
				time.Sleep(800 * time.Microsecond) // so that nothing is skipped
			}
			time.Sleep(time.Duration(r.Intn(400)) * time.Microsecond)
			if r.Intn(60) == 0 {
				now.Add(6)
			}
		}
	}()
	var left sync.WaitGroup
	plan := [][]string{{"start", "start", "stop", "get"}, {"start", "stop", "center"}, {"center", "get", "vfo", "scope"}, {"silence", "busy", "thr", "edge", "deb", "get", "center"}, {"start", "stop", "vfo", "center", "get"}}
	for k := 1; k <= callers; k++ {
		if calm && k != 1 && k != 5 {
			continue
		}
		left.Add(1)
		seed := r.Int63()
		go func() {
			defer left.Done()
			r := rand.New(rand.NewSource(seed))
			for i := 0; i < calls; i++ {
				perform(k, pick(r, plan[k-1]), r.Intn(2))
				if calm {
					time.Sleep(time.Duration(r.Intn(r.Intn(300000)+1)) * time.Microsecond)
				}
				switch r.Intn(8) {
				case 0:
					time.Sleep(time.Duration(r.Intn(8000)) * time.Microsecond)
				case 1, 2, 3:
					time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
				}
			}
		}()
	}
	done := make(chan struct{})
	go func() {
		left.Wait()
		perform(1, "stop", 0)
		time.Sleep(2 * time.Millisecond)
		close(end)
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		var stuck []any
		for k := 1; k <= callers; k++ {
			if c := current[k].Load(); c != nil && c.(call).C != "" {
				stuck = append(stuck, c)
			}
		}
		l.mu.Lock()
		vlib.Violate("calls on the receiver do not return", M{"calls": stuck, "stacks": vlib.Stacks()})
		vlib.Exit()
	}
}

func TestC04Storm(t *testing.T) {
	log.SetOutput(io.Discard)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(4))
	tr := vlib.NewTrace("calls.ndjson")
	for i := vlib.N(4, 40); i > 0 && !vlib.Violated(); i-- {
		vlib.Progress(M{"storm": i})
		storm(tr, rx.StrainMode, vlib.N(40, 100))
		storm(tr, rx.DecodeMode, vlib.N(30, 60))
	}
}

func TestC04(t *testing.T) {
	TestC04Storm(t)
	synctest.Test(t, func(t *testing.T) {
		walkReceiver("rxlives", rx.StrainMode, 60, 100, 300)
		walkReceiver("rxdecodelives", rx.DecodeMode, 60, 60, 200)
		vlib.Exit()
	})
}
