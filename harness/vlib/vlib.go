// Package vlib is the conformance library: it replays the transition graph that TLC computed
// from a specification against the real code, and records traces for validation by TLC.
package vlib

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type M = map[string]any

var (
	OutDir   = os.Getenv("VERIF_OUT")
	Tier     = os.Getenv("VERIF_TIER")
	Seed     int64
	Thorough bool
	Rand     *rand.Rand
)

type Violation struct {
	What   string `json:"what"`
	Detail any    `json:"detail"`
}

type result struct {
	Violations []Violation      `json:"violations"`
	Counts     map[string]int64 `json:"counts"`
	Samples    []any            `json:"samples"`
	Done       bool             `json:"done"`
}

var (
	// the process does its share of the work: part number shard of shards
	shard, shards = 0, 1

	mu  sync.Mutex
	res = result{Counts: map[string]int64{}}
)

type failingTransport struct{}

func (failingTransport) RoundTrip(*http.Request) (*http.Response, error) {
	return nil, fmt.Errorf("offline")
}

// Setup prepares the process: no network, own home directory, no log output, seeded randomness.
func Setup() {
	if OutDir == "" {
		OutDir, _ = os.MkdirTemp("", "vh")
	}
	Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	Thorough = Tier == "thorough"
	fmt.Sscanf(os.Getenv("VERIF_SHARD"), "%d/%d", &shard, &shards)
	Rand = rand.New(rand.NewSource(Seed*7919 + 17 + int64(shard)*1000003))
	http.DefaultTransport = failingTransport{}
	go heartbeat()
	if os.Getenv("VERIF_LOG") == "" {
		log.SetOutput(io.Discard)
	}
}

// N selects a number by tier.
func N(quick, thorough int) int {
	if Thorough {
		return thorough
	}
	return quick
}

func Violate(what string, detail any) {
	mu.Lock()
	defer mu.Unlock()
	if len(res.Violations) < 5 {
		res.Violations = append(res.Violations, Violation{what, detail})
	}
	flush()
}

func Violated() bool {
	mu.Lock()
	defer mu.Unlock()
	return len(res.Violations) > 0
}

func Count(key string, n int) {
	mu.Lock()
	defer mu.Unlock()
	beats.Add(1)
	res.Counts[key] += int64(n)
}

func Sample(s any) {
	mu.Lock()
	defer mu.Unlock()
	if len(res.Samples) < 12 {
		res.Samples = append(res.Samples, s)
	}
}

func flush() {
	for _, t := range traces {
		t.w.Flush()
	}
	b, err := json.MarshalIndent(res, "", " ")
	if err != nil {
		panic(err)
	}
	tmp := filepath.Join(OutDir, "result.json.tmp")
	if err := os.WriteFile(tmp, b, 0o644); err != nil {
		panic(err)
	}
	os.Rename(tmp, filepath.Join(OutDir, "result.json"))
}

// Finish writes the result of the run.
func Finish() {
	mu.Lock()
	defer mu.Unlock()
	res.Done = true
	flush()
}

// Exit writes the result and leaves the process without waiting for leftover goroutines.
func Exit() {
	Finish()
	os.Exit(0)
}

var progressFile *os.File
var beats atomic.Int64

// heartbeat reports a violation if the harness makes no progress for a long time because the code under test hangs.
func heartbeat() {
	last, quiet := int64(-1), 0
	for {
		time.Sleep(5 * time.Second)
		if b := beats.Load(); b != last {
			last, quiet = b, 0
			continue
		}
		quiet++
		if quiet >= 18 {
			s := Stacks()
			if strings.Contains(s, "github.com/ftl/sdrainer/") {
				Violate("hang: no progress for 90 seconds", M{"scenario": lastProgress(), "stacks": tail(s, 20000)})
				Exit()
			}
			return
		}
	}
}

func lastProgress() string {
	b, _ := os.ReadFile(filepath.Join(OutDir, "progress.json"))
	return tail(string(b), 4000)
}

// Progress notes the scenario that runs now, for the report on a crash.
func Progress(v any) {
	mu.Lock()
	defer mu.Unlock()
	openProgress()
	progressFile.Truncate(0)
	progressFile.Seek(0, 0)
	writeProgress(v)
}

// ProgressStep adds a step to the scenario that runs now.
func ProgressStep(v any) {
	mu.Lock()
	defer mu.Unlock()
	openProgress()
	writeProgress(v)
}

func openProgress() {
	if progressFile == nil {
		var err error
		progressFile, err = os.Create(filepath.Join(OutDir, "progress.json"))
		if err != nil {
			panic(err)
		}
	}
}

func writeProgress(v any) {
	beats.Add(1)
	b, _ := json.Marshal(v)
	progressFile.Write(append(b, '\n'))
}

// Canon returns the canonical JSON text of a value.
func Canon(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return canonText(b)
}

func canonText(b []byte) string {
	if len(b) == 0 || (b[0] != '{' && !strings.Contains(string(b), "{")) {
		return string(b)
	}
	var x any
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	if err := d.Decode(&x); err != nil {
		panic(err)
	}
	b, _ = json.Marshal(x)
	return string(b)
}

// ---- traces ----

type Trace struct {
	w *bufio.Writer
	f *os.File
	n int
}

var traces []*Trace

func NewTrace(name string) *Trace {
	f, err := os.Create(filepath.Join(OutDir, name))
	if err != nil {
		panic(err)
	}
	t := &Trace{w: bufio.NewWriter(f), f: f}
	mu.Lock()
	traces = append(traces, t)
	mu.Unlock()
	return t
}

// Ev records one step: the input i and the observed output o.
func (t *Trace) Ev(i any, o any) {
	b, err := json.Marshal(M{"i": i, "o": o})
	if err != nil {
		panic(err)
	}
	mu.Lock()
	defer mu.Unlock()
	t.n++
	t.w.Write(b)
	t.w.WriteByte('\n')
}

// Reset starts a new behaviour of the specification.
func (t *Trace) Reset(i M) {
	if i == nil {
		i = M{}
	}
	i["op"] = "reset"
	t.Ev(i, 0)
	Count("traces", 1)
}

// ---- graph walk ----

type edge struct {
	in, out int
	to      int
}

type Graph struct {
	States []json.RawMessage
	Idle   int // more walks without a new pair before the rest is taken to be unreachable
	init   []int
	strs   []string
	adj    [][]edge
	inputs map[int]M
}

func LoadGraph(name string) *Graph {
	var raw struct {
		Init   []int
		Strs   []string
		N      int
		Edges  [][4]int
		States []json.RawMessage
	}
	b, err := os.ReadFile(filepath.Join(OutDir, name+".graph.json"))
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &raw); err != nil {
		panic(err)
	}
	g := &Graph{States: raw.States, init: raw.Init, strs: raw.Strs, adj: make([][]edge, raw.N), inputs: map[int]M{}}
	for i, t := range raw.Strs {
		var x any
		d := json.NewDecoder(strings.NewReader(t))
		d.UseNumber()
		if err := d.Decode(&x); err != nil {
			panic(err)
		}
		c, _ := json.Marshal(x)
		g.strs[i] = string(c)
	}
	for _, e := range raw.Edges {
		g.adj[e[0]] = append(g.adj[e[0]], edge{e[1], e[2], e[3]})
	}
	return g
}

// Driver runs the real code: Reset creates a fresh system, Step performs one input and returns the output.
type Driver interface {
	Reset()
	Step(in M) any
}

// Walk steers the real code through the state graph of the specification until every (state, input) pair that
// can be reached was tried, and compares each output with those the specification allows.
func (g *Graph) Walk(name string, d Driver, maxSteps int, maxLen int, deadline time.Duration) {
	rnd := rand.New(rand.NewSource(Seed*31 + 5 + int64(shard)*1000003))
	type pair struct{ s, in int }
	outcomes := map[pair][]edge{}
	inputsOf := make([][]int, len(g.adj))
	for s := range g.adj {
		for _, e := range g.adj[s] {
			p := pair{s, e.in}
			if len(outcomes[p]) == 0 {
				inputsOf[s] = append(inputsOf[s], e.in)
			}
			outcomes[p] = append(outcomes[p], e)
		}
	}
	mine := func(p pair) bool { return (p.s*31+p.in)%shards == shard }
	todo := 0
	for p := range outcomes {
		if mine(p) {
			todo++
		}
	}
	// the inputs that are still wanted per state; more tries if the specification allows several outcomes
	want := make([][]int, len(g.adj))
	tries, vague := map[pair]int{}, map[pair]int{}
	for s := range want {
		for _, in := range inputsOf[s] {
			if mine(pair{s, in}) {
				want[s] = append(want[s], in)
			}
		}
		rnd.Shuffle(len(want[s]), func(i, j int) { want[s][i], want[s][j] = want[s][j], want[s][i] })
	}
	done := func(p pair) {
		l := want[p.s]
		for i := range l {
			if l[i] == p.in {
				l[i] = l[len(l)-1]
				want[p.s] = l[:len(l)-1]
				return
			}
		}
	}
	tried := func(p pair) bool {
		tries[p]++
		limit := 1
		if len(outcomes[p]) > 1 {
			limit = 3
		}
		if tries[p] >= limit {
			done(p)
		}
		return tries[p] == 1 && mine(p)
	}
	seen := make([][]edge, len(g.adj))
	// the next input: one that is wanted in the current states, or the first step on a shortest path to one
	var path func(s0 int, everywhere func(int) bool, try bool) (int, bool)
	choose := func(cur []int) (int, bool) {
		everywhere := func(in int) bool {
			for _, s := range cur {
				if len(outcomes[pair{s, in}]) == 0 {
					return false
				}
			}
			return true
		}
		s0 := cur[rnd.Intn(len(cur))]
		for i := len(want[s0]) - 1; i >= 0; i-- {
			if everywhere(want[s0][i]) {
				return want[s0][i], true
			}
		}
		// shortest path along transitions that the code has taken before, or else along such that it may take
		if in, ok := path(s0, everywhere, false); ok {
			return in, true
		}
		return path(s0, everywhere, true)
	}
	path = func(s0 int, everywhere func(int) bool, try bool) (int, bool) {
		edgesOf := func(s int) []edge {
			if !try {
				return seen[s]
			}
			var r []edge
			for _, e := range g.adj[s] {
				if tries[pair{s, e.in}] < 3 {
					r = append(r, e)
				}
			}
			return append(r, seen[s]...)
		}
		type item struct{ s, first int }
		var queue []item
		visited := map[int]bool{s0: true}
		for _, e := range edgesOf(s0) {
			if !visited[e.to] && everywhere(e.in) {
				visited[e.to] = true
				queue = append(queue, item{e.to, e.in})
			}
		}
		for len(queue) > 0 {
			it := queue[0]
			queue = queue[1:]
			if len(want[it.s]) > 0 {
				return it.first, true
			}
			for _, e := range edgesOf(it.s) {
				if !visited[e.to] {
					visited[e.to] = true
					queue = append(queue, item{e.to, it.first})
				}
			}
		}
		return 0, false
	}
	covered, steps, walks, idle := 0, 0, 0, 0
	isSeen := map[[3]int]bool{}
	start := RealTime()
	for steps < maxSteps && covered < todo && RealTime()-start < deadline && !Violated() {
		cur := []int{g.init[walks%len(g.init)]}
		Progress(M{"model": name})
		d.Reset()
		walks++
		var history []any
		before := covered
		for n := 0; n < maxLen && steps < maxSteps; n++ {
			in, ok := choose(cur)
			if !ok {
				break
			}
			inM := g.inputs[in]
			if inM == nil {
				json.Unmarshal([]byte(g.strs[in]), &inM)
				g.inputs[in] = inM
			}
			ProgressStep(inM)
			out := Canon(d.Step(inM))
			steps++
			history = append(history, M{"in": json.RawMessage(g.strs[in]), "out": json.RawMessage(out)})
			next := map[int]bool{}
			var allowed []string
			for _, s := range cur {
				p := pair{s, in}
				if len(cur) > 1 {
					// it is not known which of the states the code is in
					if vague[p]++; vague[p] > 3 {
						done(p)
					}
				} else if tried(p) {
					covered++
				}
				for _, e := range outcomes[p] {
					if g.strs[e.out] == out {
						next[e.to] = true
						if k := [3]int{s, e.in, e.to}; !isSeen[k] {
							isSeen[k] = true
							seen[s] = append(seen[s], e)
						}
					}
					allowed = append(allowed, g.strs[e.out])
				}
			}
			if len(next) == 0 {
				Violate("the output is not allowed by the specification "+name, M{
					"history": history, "observed": json.RawMessage(out), "allowed": dedup(allowed)})
				return
			}
			cur = cur[:0]
			for s := range next {
				cur = append(cur, s)
			}
			sort.Ints(cur)
		}
		if walks <= 2 {
			if len(history) > 12 {
				history = history[:12]
			}
			Sample(M{"model": name, "walk": history})
		}
		if covered > before {
			idle = 0
			continue
		}
		// give up on pairs that cannot be reached, because the code always takes another allowed outcome
		idle++
		if idle > 20+g.Idle {
			break
		}
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		for s := range seen {
			if len(seen[s]) > 0 {
				fmt.Fprintln(os.Stderr, "UNCOVERED", s, len(seen[s]), len(want[s]), string(g.States[s]))
			}
		}
	}
	Count("graph_pairs", todo)
	Count("graph_pairs_covered", covered)
	Count("steps", steps)
	Count("traces", walks)
}

func dedup(l []string) []json.RawMessage {
	seen := map[string]bool{}
	var r []json.RawMessage
	for _, s := range l {
		if !seen[s] && len(r) < 10 {
			seen[s] = true
			r = append(r, json.RawMessage(s))
		}
	}
	return r
}

// ---- helpers ----

func Stacks() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// Int converts a JSON number.
func Int(v any) int {
	switch x := v.(type) {
	case float64:
		return int(x)
	case int:
		return x
	case json.Number:
		n, _ := x.Int64()
		return int(n)
	}
	panic(fmt.Sprintf("not a number: %v", v))
}

func Str(v any) string { return v.(string) }

// Watchdog reports a violation if the process does not finish within d of real time.
func Watchdog(d time.Duration, what string) {
	go func() {
		time.Sleep(d)
		Violate("hang: "+what, M{"stacks": tail(Stacks(), 20000)})
		Exit()
	}()
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// RealTime is a clock that also runs in a bubble.
func RealTime() time.Duration {
	var tv syscall.Timeval
	syscall.Gettimeofday(&tv)
	return time.Duration(tv.Nano())
}

// Seconds is a time limit per tier.
func Seconds(quick, thorough int) time.Duration {
	return time.Duration(N(quick, thorough)) * time.Second
}

// Shard returns the number of the part of the work that this process does.
func Shard() int { return shard }
