package rxt

import (
	"testing"
	"testing/synctest"

	"github.com/ftl/sdrainer/rx"
	"vh/vlib"
)

// walkReceiver walks the graph of a scenario on a receiver.
func walkReceiver(graph string, mode rx.ReceiverMode, maxLen int, quick, thorough int) {
	if vlib.Violated() {
		return
	}
	vlib.LoadGraph(graph).Walk("Receiver, "+graph, newRxDriver(mode), 1<<30, maxLen, vlib.Seconds(quick, thorough))
}

func TestC03(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		walkReceiver("rxtimeouts", rx.StrainMode, 60, 60, 300)
		walkReceiver("rxexpiry", rx.StrainMode, 60, 20, 60)
		walkReceiver("rxdecoding", rx.DecodeMode, 60, 20, 60)
		tr := vlib.NewTrace("rx.ndjson")
		recordReceiver(tr, rx.StrainMode, profile{signals: 4, keyed: 15, midway: true, ticks: []int{0, 1, 2, 3, 5, 10, 21, 60, 70}, settings: []string{"silence", "busy"}}, vlib.N(3, 20), 80)
		vlib.Exit()
	})
}

func TestC01(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		walkReceiver("rxreports", rx.StrainMode, 60, 60, 300)
		tr := vlib.NewTrace("rx.ndjson")
		recordReceiver(tr, rx.StrainMode, profile{signals: 5, keyed: 20, midway: true, held: true, ticks: []int{0, 1, 2, 5, 10, 21, 60}, settings: []string{"silence", "busy", "center"}}, vlib.N(3, 20), 60)
		recordReceiver(tr, rx.StrainMode, profile{crowd: true, midway: true, ticks: []int{1, 2, 5, 10}, settings: []string{"busy"}}, vlib.N(1, 6), 60)
		vlib.Exit()
	})
}

func TestC08(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		walkReceiver("rxsilences", rx.StrainMode, 60, 40, 100)
		walkReceiver("rxdebounces", rx.StrainMode, 60, 40, 100)
		walkReceiver("rxtuning", rx.StrainMode, 60, 40, 100)
		walkReceiver("rxscopes", rx.StrainMode, 60, 40, 100)
		tr := vlib.NewTrace("rx.ndjson")
		recordReceiver(tr, rx.StrainMode, profile{signals: 4, keyed: 10, midway: true, ticks: []int{1, 2, 5, 10, 21}, settings: []string{"silence", "busy", "thr", "scope", "center"}}, vlib.N(3, 20), 80)
		vlib.Exit()
	})
}

func TestC11(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		walkReceiver("rxvfos", rx.StrainMode, 60, 60, 200)
		walkReceiver("rxtracking", rx.DecodeMode, 60, 60, 200)
		tr := vlib.NewTrace("rx.ndjson")
		recordReceiver(tr, rx.StrainMode, profile{signals: 4, keyed: 20, midway: true, vfo: true, ticks: []int{0, 1, 2, 5, 10, 21}, settings: []string{"silence", "center"}}, vlib.N(3, 20), 80)
		vlib.Exit()
	})
}

// coverBins returns how to choose bins so that all of them get used.
func coverBins(count, distance, edge int) func(size int) []int {
	left := map[int][]int{}
	return func(size int) []int {
		n := sizes[size][1]
		if len(left[size]) < n {
			left[size] = append(left[size], vlib.Rand.Perm(n)...)
		}
		var r, rest []int
		for _, b := range left[size] {
			if b < edge || b >= n-edge {
				continue
			}
			free := len(r) < count
			for _, x := range r {
				free = free && (b-x >= distance || x-b >= distance)
			}
			if free {
				r = append(r, b)
			} else {
				rest = append(rest, b)
			}
		}
		left[size] = rest
		vlib.Count("bins", len(r))
		return r
	}
}

func TestC30(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		tr := vlib.NewTrace("rx.ndjson")
		p := profile{keyed: 30, ticks: []int{1, 2, 5, 10}, settings: []string{"center"}, gaps: true, vfo: true}
		exact := p
		exact.bins = coverBins(5, 4, 0)
		recordReceiver(tr, rx.StrainMode, exact, vlib.N(10, 60), 25)
		// (the spectrum of a signal that is not in the center of its bin is wider, wraps around at the edges, and a strong one has several peaks)
		offset := p
		offset.bins, offset.offset, offset.levels = coverBins(3, 30, 12), true, []int{30}
		recordReceiver(tr, rx.StrainMode, offset, vlib.N(6, 40), 25)
		// (random noise disturbs single marks: nothing is claimed about the exact text)
		random := p
		random.keyed = 0
		random.bins, random.gauss, random.levels = coverBins(5, 4, 0), true, []int{30, 40}
		recordReceiver(tr, rx.StrainMode, random, vlib.N(6, 40), 25)
		// many signals at once, but not more than listeners
		recordReceiver(tr, rx.StrainMode, profile{signals: 24, steady: true, ticks: []int{1}}, vlib.N(2, 12), 80)
		vlib.Exit()
	})
}
