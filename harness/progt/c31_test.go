package progt

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"vh/vlib"
)

func pick[T any](r *rand.Rand, l ...T) T { return l[r.Intn(len(l))] }

var calls = []string{"dl1abc", "k3lr", "w1aw", "g4xyz", "pa3fwm", "oh2bh"}

// scenario returns a random scenario.
func scenario(r *rand.Rand, defaults bool) (conf, []M) {
	c := conf{Fault: "none", Thr: 15, Deb: 1, Sil: 10, Busy: 60, Every: 60000, Call: "local-#", Bw: 10000, Center: center0, Pitch: 700, Wpm: 20, Mag: 75}
	c.Cmd, c.Src = "strain", "tci"
	switch x := r.Intn(20); {
	case defaults:
		c.Src = pick(r, "tci", "kiwi")
	case x < 5:
		c.Src = "kiwi"
	case x < 8:
		c.Cmd = "decode"
	case x < 12:
		c.Cmd, c.Src = "decode", "pulse"
	}
	c.Defaults = defaults
	if !defaults {
		c.Debug = r.Intn(4) == 0
		c.Scope = r.Intn(3) == 0
		if r.Intn(7) == 0 {
			c.Fault = pick(r, "flag", "value", "absent", "host", "taken")
			if c.Src == "pulse" && c.Fault == "host" {
				c.Fault, c.Source = "source", "none-of-them"
			}
			if c.Cmd == "decode" && c.Fault == "taken" {
				c.Fault = "flag"
			}
		}
		if r.Intn(3) == 0 {
			c.Deb = 7
		}
		if r.Intn(3) == 0 {
			c.Thr = 40
		}
		if c.Cmd == "strain" {
			c.Call = pick(r, "local-#", "DL0XX-#", "N0CALL")
			c.Every = pick(r, 1, 60000, 3600000)
			switch r.Intn(5) {
			case 0:
				c.Sil = 2
			case 1:
				c.Sil = 60
				if c.Src == "tci" {
					c.Busy = pick(r, 3, 5, 600)
				}
			case 2, 3:
				c.Sil = 60
			}
			if c.Deb != 1 {
				c.Sil = 60 // nothing is decoded
			}
		}
	}
	// the signals of a behaviour are not close to each other, and not close to a limit between two kHz
	bin := func(i int) int { return 60 + 40*i + r.Intn(4) }
	switch c.Src {
	case "tci":
		c.Trx = r.Intn(2)
		c.Listeners, c.Spots = r.Intn(2) == 0, r.Intn(2) == 0
		if c.Cmd == "decode" {
			c.Listeners, c.Spots = false, false
			c.Thr = 15
		}
		if defaults {
			c.Trx, c.Listeners, c.Spots = 0, false, false
		}
		if c.Cmd == "decode" {
			c.Vfo = bin(1)
		}
	case "kiwi":
		if !defaults {
			c.User, c.Pw = pick(r, "", "fritz"), pick(r, "", "secret")
			c.Center, c.Bw = pick(r, 7020000, 14030500, 3525250), pick(r, 10000, 12000, 4000)
		}
	case "pulse":
		c.Thr = 15
		if c.Fault != "source" {
			c.Source = pick(r, "", "mic", "line", "mon")
		}
		c.Pitch, c.Wpm = pick(r, 700, 450, 1000), pick(r, 20, 12, 30)
		c.Scale, c.Mag = pick(r, 0, 100, 200), pick(r, 75, 15)
		if c.Deb == 7 {
			c.Deb = 40
		}
	}
	ops := []M{{"op": "run", "c": c.m()}}
	if c.Fault != "none" && !(c.Fault == "absent" && c.Src == "tci") {
		return c, ops
	}
	do := func(in M) { ops = append(ops, in) }
	if c.Cmd == "strain" {
		for i := r.Intn(3); i > 0; i-- {
			do(M{"op": "client"})
		}
	}
	there := c.Fault != "absent"
	if !there && r.Intn(3) > 0 { // it appears later
		do(M{"op": "back"})
		there = true
	}
	if c.Cmd == "strain" && there {
		if c.Scope && r.Intn(2) == 0 {
			do(M{"op": "watch"})
		}
		strain(r, c, bin, do)
	}
	if c.Cmd == "decode" && c.Src == "tci" && there {
		b := c.Vfo
		if r.Intn(4) == 0 {
			again(do)
		}
		for i := 1 + r.Intn(3); i > 0; i-- {
			at, w := b, "test w1aw e"
			if r.Intn(3) == 0 {
				at = bin(2 + r.Intn(5))
			}
			if c.Deb != 1 {
				w = "hise e"
			}
			do(M{"op": "text", "b": at, "lv": pick(r, 30, 50), "w": w})
			if r.Intn(2) == 0 {
				b = bin(1 + r.Intn(7))
				do(M{"op": "tune", "b": b})
			}
		}
	}
	if c.Src == "pulse" && c.Fault == "none" {
		src := c.Source
		if src == "" {
			src = "mic"
		}
		for i := 1 + r.Intn(2); i > 0; i-- {
			from, pitch, w := src, c.Pitch, "test w1aw e"
			switch r.Intn(6) {
			case 0:
				from = pick(r, "mic", "line", "mon")
			case 1:
				if c.Mag == 75 { // there is nothing left of another pitch
					pitch = pick(r, 700, 450, 1000)
				}
			}
			if c.Deb != 1 {
				w = "hise e"
			}
			do(M{"op": "sound", "src": from, "pitch": pitch, "amp": pick(r, 25, 95), "wpm": c.Wpm, "w": w})
		}
	}
	if c.Scope && (c.Fault == "none" || there && c.Cmd == "strain") && r.Intn(2) == 0 {
		do(M{"op": "watch"})
	}
	do(M{"op": "end", "s": pick(r, "HUP", "INT", "TERM", "QUIT")})
	return c, ops
}

func again(do func(M)) {
	do(M{"op": "lost"})
	do(M{"op": "back"})
}

func strain(r *rand.Rand, c conf, bin func(int) int, do func(M)) {
	level := func() int { return pick(r, 30, 50) }
	if c.Busy < 10 {
		do(M{"op": "hold", "b": bin(r.Intn(9)), "lv": level(), "t": c.Busy})
		return
	}
	order := r.Perm(9)
	n := 1 + r.Intn(3)
	if c.Sil < 60 {
		n = 1
	}
	if c.Every == 1 {
		do(M{"op": "client"})
	}
	waited := false
	lost := -1
	if c.Src == "tci" && c.Sil == 60 && r.Intn(4) == 0 {
		lost = r.Intn(n)
	}
	at := map[string]int{}
	for i := 0; i < n; i++ {
		b, call := bin(order[i]), pick(r, calls...)
		for other, ok := at[call]; ok && c.Src == "kiwi" && max(b-other, other-b) < 100; other, ok = at[call] {
			call = pick(r, calls...) // not the same kHz
		}
		at[call] = b
		if i == lost {
			again(do)
		}
		times := 3
		if c.Every == 1 { // every spot is announced
			times = 4
		}
		do(M{"op": "key", "b": b, "lv": level(), "c": call, "n": times})
		if r.Intn(3) == 0 {
			do(M{"op": "client"})
		}
		if c.Sil == 2 {
			do(M{"op": "quiet", "t": 2})
		} else if r.Intn(4) == 0 && !waited {
			waited = true
			do(M{"op": "quiet", "t": pick(r, 2, 10)})
		}
		if r.Intn(2) == 0 {
			do(M{"op": "key", "b": b, "lv": level(), "c": call, "n": pick(r, 2, 3)})
			if c.Sil == 2 {
				do(M{"op": "quiet", "t": 2})
			}
		}
	}
}

// ending returns a random scenario that ends at any moment.
func ending(r *rand.Rand) (conf, []M) {
	c, _ := scenario(r, false)
	for c.Fault != "none" && !(c.Fault == "absent" && c.Src == "tci") {
		c, _ = scenario(r, false)
	}
	many := c.Cmd == "strain" && r.Intn(2) == 0 // announcements
	if many {
		c.Every, c.Deb, c.Thr = 1, 1, 15
	}
	c.Hasty = !many && c.Cmd == "strain" && c.Fault == "none" && r.Intn(4) == 0
	ops := []M{{"op": "run", "c": c.m()}}
	if c.Cmd == "strain" {
		for i := r.Intn(4); i > 0; i-- {
			ops = append(ops, M{"op": "client"})
		}
	}
	if c.Scope && c.Fault == "none" && !c.Hasty {
		for i := r.Intn(3); i > 0; i-- {
			ops = append(ops, M{"op": "watch"})
		}
	}
	if !c.Hasty && r.Intn(6) > 0 {
		idle := 0
		if c.Cmd == "strain" {
			idle = pick(r, 0, 0, 5)
		}
		n, ms := 1+r.Intn(20), r.Intn(5000)
		if many {
			n, ms = 12+r.Intn(9), 4000+r.Intn(1500)
		}
		ops = append(ops, M{"op": "bustle", "n": n, "c": pick(r, calls...), "ms": ms, "idle": idle,
			"deaf": c.Src == "tci" && c.Fault == "none" && r.Intn(5) == 0})
	}
	if c.Src == "tci" && c.Fault == "none" && !c.Hasty && r.Intn(6) == 0 {
		ops = append(ops, M{"op": "lost"})
	}
	return c, append(ops, M{"op": "end", "s": pick(r, "HUP", "INT", "TERM", "QUIT")})
}

func binsOf(c conf, ops []M) []int {
	r := []int{}
	for _, o := range ops {
		if b, ok := o["b"].(int); ok {
			r = append(r, b)
		}
	}
	return r
}

type line struct{ i, o any }

// play runs a scenario, and tells if the machine was fast enough.
func play(c conf, ops []M) ([]line, bool) {
	dir, err := os.MkdirTemp(os.Getenv("HOME"), "s")
	if err != nil {
		panic(err)
	}
	d := &driver{c: c, bins: binsOf(c, ops), dir: dir}
	defer d.close()
	w := watchLag()
	var r []line
	for _, in := range ops {
		out := d.step(in)
		if how := d.p.crashed(); how != "" {
			out = M{"crashed": how}
		}
		r = append(r, line{in, out})
		vlib.Count("steps", 1)
		if m := out.(M); m["bad"] != nil || m["exit"] != nil || m["crashed"] != nil || m["ended"] == true {
			break
		}
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Println(d.p.cmd.Args, "\n", d.p.printed(), d.p.errors())
		for _, l := range r {
			fmt.Println(vlib.Canon(l.i), "=>", vlib.Canon(l.o))
		}
		for _, c := range d.clients {
			fmt.Println(c.text.String())
		}
		fmt.Println("lag", w.max.Load())
	}
	return r, !w.tooMuch()
}

func TestC31(t *testing.T) {
	n := vlib.N(10, 90)
	explore(n+4, func(r *rand.Rand, id int) (conf, []M) {
		c, ops := scenario(r, id == 0)
		for id%1000 >= n && (c.Fault == "none" || c.Fault == "absent" && c.Src == "tci") { // it cannot start
			c, ops = scenario(r, false)
		}
		return c, ops
	})
}

func TestC32(t *testing.T) {
	explore(vlib.N(24, 200), func(r *rand.Rand, _ int) (conf, []M) { return ending(r) })
}

func explore(count int, choose func(*rand.Rand, int) (conf, []M)) {
	tr := vlib.NewTrace("program.ndjson")
	only := os.Getenv("VERIF_ONLY")
	parallel := 3
	if only != "" {
		count, parallel = 1, 1
	}
	var n atomic.Int64
	var wg sync.WaitGroup
	var mu sync.Mutex
	all := map[int][]line{}
	for k := 0; k < parallel; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(n.Add(1)) - 1
				if i >= count {
					return
				}
				id := vlib.Shard()*1000 + i
				if only != "" {
					id, _ = strconv.Atoi(only)
				}
				c, ops := choose(rand.New(rand.NewSource(vlib.Seed*100003+int64(id))), id)
				for try := 0; try < 3; try++ {
					vlib.ProgressStep(ops)
					lines, ok := play(c, ops)
					if ok {
						mu.Lock()
						all[id] = lines
						mu.Unlock()
						break
					}
					vlib.Count("too slow", 1)
					time.Sleep(time.Second)
				}
			}
		}()
	}
	wg.Wait()
	var ids []int
	for id := range all {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		tr.Reset(M{"scenario": id})
		for _, l := range all[id] {
			tr.Ev(l.i, l.o)
		}
	}
	vlib.Count("scenarios", len(ids))
	os.RemoveAll(filepath.Join(os.Getenv("HOME"), "s"))
	vlib.Exit()
}
