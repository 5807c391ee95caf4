package rxt

import (
	"encoding/json"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ftl/sdrainer/rx"
	"vh/keying"
	"vh/vlib"
)

// bounded runs f and reports whether it returned within a minute of the bubble's time.
func bounded(f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	t := time.NewTimer(time.Minute)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}

// reports is the user of the reports; it can be busy for a while.
type reports struct {
	mu     sync.Mutex
	gate   chan struct{}
	events []any
}

func (r *reports) add(kind, call string, n, w int) {
	r.mu.Lock()
	gate := r.gate
	r.mu.Unlock()
	if gate != nil {
		<-gate
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.events = append(r.events, M{"k": kind, "c": chars(call), "n": n, "w": w})
}
func (r *reports) CallsignDecoded(call string, count, weight int) { r.add("dec", call, count, weight) }
func (r *reports) CallsignSpotted(call string)                    { r.add("spot", call, 0, 0) }
func (r *reports) SpotTimeout(call string)                        { r.add("timeout", call, 0, 0) }

func chars(s string) []string {
	r := []string{}
	for _, c := range s {
		r = append(r, string(c))
	}
	return r
}

func text(v any) string {
	switch l := v.(type) {
	case []string:
		return strings.Join(l, "")
	case []any:
		var sb strings.Builder
		for _, c := range l {
			sb.WriteString(c.(string))
		}
		return sb.String()
	}
	panic("text")
}

// setData provides or removes the reference data of the user.
func setData(v any) {
	dir := filepath.Join(os.Getenv("HOME"), ".config", "hamradio")
	cty, scp := filepath.Join(dir, "cty.dat"), filepath.Join(dir, "MASTER.SCP")
	os.RemoveAll(cty)
	os.RemoveAll(scp)
	if v == nil {
		return
	}
	os.MkdirAll(dir, 0o755)
	d := v.(map[string]any)
	list := func(v any) []string {
		var r []string
		for _, t := range v.([]any) {
			r = append(r, text(t))
		}
		return r
	}
	if d["dx"].(bool) {
		entry := "Testland:  14:  28:  EU:  51.00:  -10.00:  -1.0:  DL:\n    " + strings.Join(list(d["pre"]), ",") + ";\n"
		if err := os.WriteFile(cty, []byte(entry), 0o644); err != nil {
			panic(err)
		}
	}
	if calls := list(d["scp"]); len(calls) > 0 {
		if err := os.WriteFile(scp, []byte(strings.Join(calls, "\n")+"\n"), 0o644); err != nil {
			panic(err)
		}
	}
}

func plain(v any) any { // the same types as after decoding
	var r any
	json.Unmarshal([]byte(vlib.Canon(v)), &r)
	return r
}

// textDriver drives a text processor in virtual time.
type textDriver struct {
	names bool
	p     *rx.TextProcessor
	r     *reports
	now   time.Time
}

func (d *textDriver) Reset() { d.fresh(nil) }

func (d *textDriver) fresh(data any) {
	if d.p != nil {
		d.open()
		d.p.Stop()
	}
	d.r = &reports{}
	d.now = time.Date(2024, 2, 28, 23, 58, 0, 0, time.UTC)
	setData(data)
	d.p = rx.NewTextProcessor(nil, rx.ClockFunc(func() time.Time { return d.now }), d.r)
	d.p.Start()
}

func (d *textDriver) open() {
	d.r.mu.Lock()
	defer d.r.mu.Unlock()
	if d.r.gate != nil {
		close(d.r.gate)
		d.r.gate = nil
	}
}

func (d *textDriver) take() any {
	synctest.Wait()
	d.r.mu.Lock()
	defer d.r.mu.Unlock()
	out := []any{}
	for _, e := range d.r.events {
		switch {
		case !d.names:
			out = append(out, e)
		case e.(M)["k"] == "dec":
			out = append(out, e.(M)["c"])
		}
	}
	d.r.events = nil
	return out
}

func (d *textDriver) Step(in M) any {
	switch in["op"] {
	case "new":
		d.fresh(plain(in["data"]))
	case "write":
		t := []byte(text(in["text"]))
		n := 0
		if !bounded(func() { n, _ = d.p.Write(t) }) {
			return "hang"
		}
		if n != len(t) {
			return "short write"
		}
		for i := range t { // the writer may use its buffer again
			t[i] = '0'
		}
	case "tick":
		d.now = d.now.Add(time.Duration(vlib.Int(in["ms"])) * time.Millisecond)
	case "check":
		if !bounded(d.p.CheckWriteTimeout) {
			return "hang"
		}
	case "hold":
		d.r.gate = make(chan struct{})
	case "release":
		d.open()
	case "restart":
		done := make(chan struct{})
		go func() {
			defer close(done)
			d.p.Restart()
		}()
		synctest.Wait()
		d.open()
		if !bounded(func() { <-done }) {
			return "hang"
		}
	}
	return d.take()
}

func inBubble(t *testing.T, f func()) {
	log.SetOutput(io.Discard)
	synctest.Test(t, func(t *testing.T) {
		f()
		vlib.Finish()
		vlib.Exit()
	})
}

var callPool = []string{"k1k", "d1d", "dl1abc", "dl1abc/p", "pj4/dl1abc", "pj4/dl1abc/mm", "dl1abc/9/am", "3a2bc", "9a1x", "4u1itu", "oe5xyz/9", "w1aw/7",
	"hb9/dl2zz/p", "r1000special", "tu5nn", "tu5nnab", "2e0abc", "a1b2c3d", "ea8/dl3aaaaaaaa/qrp", "oh0/sm0/ly", "vp8/g0abc/longsuffix12345/mm"}
var noisePool = []string{"cq", "de", "test", "599", "5nn", "tu", "k", "73", "?", "=", "/", "//", "<sk>", "e", "1", "dl1", "1abc", "abc1", "abc1de", "12a3b",
	"dl1abc/", "/dl1abc", "a/b/dl1abc", "dl1abc?", "dl1abc=k", "dl1abc599", "dl1abc/9/", "=dl1abc", "up", "eeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeee"}

// randomText makes a text of words and splits it into writes in some way.
func randomText(rnd *rand.Rand, calls []string, words int) []string {
	var sb strings.Builder
	for i := 0; i < words; i++ {
		w := noisePool[rnd.Intn(len(noisePool))]
		if rnd.Intn(2) == 0 {
			w = calls[rnd.Intn(len(calls))]
		}
		if s := sb.String(); len(s)-strings.LastIndexAny(s, " \n")-1+len(w) > 40 {
			sb.WriteString(" ") // longer callsigns are not specified
		}
		sb.WriteString(w)
		k := rnd.Intn(12)
		if k == 1 && i == words-1 {
			k = 3
		}
		if l := strings.Fields(sb.String()); k == 1 && len(l) > 0 && strings.Count(l[len(l)-1], "/") > 1 {
			k = 2 // what is a callsign if there is more after the working condition?
		}
		switch k {
		case 0:
			sb.WriteString("  ")
		case 1: // joined words
		case 2:
			sb.WriteString("\n")
		default:
			sb.WriteString(" ")
		}
	}
	s := sb.String()
	var r []string
	max := []int{1, 1, 3, 9, 25, 70, 400}[rnd.Intn(7)]
	for len(s) > 0 {
		n := 1 + rnd.Intn(max)
		if n > len(s) {
			n = len(s)
		}
		r = append(r, s[:n])
		s = s[n:]
	}
	return r
}

func randomData(rnd *rand.Rand) M {
	d := M{"dx": rnd.Intn(2) == 0, "pre": [][]string{}, "scp": [][]string{}}
	pre, scp := [][]string{}, [][]string{}
	for _, p := range []string{"DL", "K", "PJ4", "3A", "D", "W1", "HB", "OE5XYZ/9", "G", "TU", "2E0", "EA8"} {
		if rnd.Intn(2) == 0 {
			pre = append(pre, chars(p))
		}
	}
	for _, c := range []string{"K1K", "D1D", "DL1ABC", "3A2BC", "W1AW/7", "2E0ABC", "DL1ABD", "K1KK"} {
		if rnd.Intn(2) == 0 {
			scp = append(scp, chars(c))
		}
	}
	if len(pre) > 0 {
		d["pre"] = pre
	} else {
		d["dx"] = false
	}
	if rnd.Intn(2) == 0 {
		d["scp"] = scp
	}
	return d
}

func textTrace(n, length int, holds bool, seed int64) {
	tr := vlib.NewTrace("text.ndjson")
	rnd := rand.New(rand.NewSource(vlib.Seed*7919 + seed))
	for i := 0; i < n; i++ {
		d := &textDriver{}
		d.Reset()
		tr.Reset(nil)
		do := func(in M) {
			vlib.ProgressStep(in)
			tr.Ev(in, d.Step(in))
		}
		vlib.Progress(M{"random text": i})
		do(M{"op": "new", "data": randomData(rnd)})
		calls := callPool
		if rnd.Intn(2) == 0 {
			rnd.Shuffle(len(callPool), func(i, j int) { callPool[i], callPool[j] = callPool[j], callPool[i] })
			calls = callPool[:2+rnd.Intn(3)]
		}
		held := 0
		for j := 0; j < length; j++ {
			for _, c := range randomText(rnd, calls, 1+rnd.Intn(6)) {
				if held > 0 {
					held--
					if held == 0 {
						do(M{"op": []string{"release", "restart"}[rnd.Intn(2)]})
					}
				}
				do(M{"op": "write", "text": chars(c)})
			}
			switch k := rnd.Intn(16); {
			case k < 5 && held == 0:
				do(M{"op": "tick", "ms": []int{1, 2000, 5000, 5001, 60000}[rnd.Intn(5)]})
				do(M{"op": "check"})
				if rnd.Intn(3) == 0 {
					do(M{"op": "tick", "ms": 1})
					do(M{"op": "check"})
				}
			case k < 6:
				held = 0
				do(M{"op": "restart"})
			case k < 8 && holds && held == 0:
				held = 1 + rnd.Intn(8)
				do(M{"op": "hold"})
			}
		}
		if held > 0 {
			do(M{"op": "release"})
		}
		d.p.Stop()
	}
	vlib.Count("random texts", n)
}

func TestC05(t *testing.T) {
	inBubble(t, func() {
		vlib.LoadGraph("textspot").Walk("TextProcessor", &textDriver{}, vlib.N(40000, 200000), 300, vlib.Seconds(60, 200))
		textTrace(vlib.N(20, 80), vlib.N(12, 20), true, 1)
	})
}

func TestC06(t *testing.T) {
	inBubble(t, func() {
		vlib.LoadGraph("textscan").Walk("TextProcessor", &textDriver{names: true}, vlib.N(200000, 300000), 300, vlib.Seconds(60, 200))
		textTrace(vlib.N(20, 80), vlib.N(12, 20), true, 2)
	})
}

func TestC07(t *testing.T) {
	inBubble(t, func() {
		vlib.LoadGraph("texthold").Walk("TextProcessor", &textDriver{}, vlib.N(200000, 300000), 300, vlib.Seconds(60, 200))
		textTrace(vlib.N(20, 80), vlib.N(12, 20), true, 3)
		for i, k := range decoders {
			vlib.LoadGraph("decoder").Walk("Decoder/"+k.name, &keying.Driver{Make: k.mk}, vlib.N(100000, 400000), 300, vlib.Seconds(30, 100))
			if i > 0 {
				vlib.LoadGraph("decoderdeb").Walk("Decoder/"+k.name, &keying.Driver{Make: k.mk}, vlib.N(100000, 400000), 300, vlib.Seconds(30, 100))
			}
		}
		resetTrace(vlib.N(60, 300))
	})
}
