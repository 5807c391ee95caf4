package tcit

import (
	"testing"
	"testing/synctest"

	"github.com/ftl/sdrainer/rx"
	"vh/vlib"
)

func whole(mode rx.ReceiverMode) *wholeDriver {
	pool := 30
	if mode == rx.DecodeMode {
		pool = 1
	}
	return newWholeDriver(mode, pool, []string{"k3lr", "w1aw"})
}

func TestC26(t *testing.T) {
	g, shows := vlib.LoadGraph("tcidisplay"), vlib.LoadGraph("tciwhole")
	tr, wtr := vlib.NewTrace("tcidisplay.ndjson"), vlib.NewTrace("tci.ndjson")
	synctest.Test(t, func(t *testing.T) {
		g.Walk("TciDisplay", &displayDriver{nl: 2, ns: 1}, 1<<30, 60, vlib.Seconds(40, 300))
		display(tr, false)
		shows.Walk("Tci", whole(rx.StrainMode), 1<<30, 50, vlib.Seconds(60, 400))
		recordWhole(wtr, rx.StrainMode, vlib.N(4, 60), func(s *randomWhole) {})
		vlib.Exit()
	})
}

func TestC27(t *testing.T) {
	messages, settings, decode := vlib.LoadGraph("tcimessages"), vlib.LoadGraph("tcisettings"), vlib.LoadGraph("tcidecode")
	tr, dtr := vlib.NewTrace("tci.ndjson"), vlib.NewTrace("tcidecode.ndjson")
	synctest.Test(t, func(t *testing.T) {
		messages.Walk("Tci", whole(rx.StrainMode), 1<<30, 50, vlib.Seconds(40, 300))
		settings.Walk("Tci", whole(rx.StrainMode), 1<<30, 50, vlib.Seconds(60, 300))
		decode.Walk("Tci", whole(rx.DecodeMode), 1<<30, 50, vlib.Seconds(40, 300))
		with := func(s *randomWhole) { s.foreign, s.settings = true, true }
		recordWhole(tr, rx.StrainMode, vlib.N(4, 60), with)
		recordWhole(dtr, rx.DecodeMode, vlib.N(4, 60), with)
		vlib.Exit()
	})
}

func TestC28(t *testing.T) {
	g, closes := vlib.LoadGraph("tciclose"), vlib.LoadGraph("tciwhole")
	tr, wtr := vlib.NewTrace("tcidisplay.ndjson"), vlib.NewTrace("tci.ndjson")
	synctest.Test(t, func(t *testing.T) {
		g.Walk("TciDisplay", &displayDriver{nl: 2, ns: 1}, 1<<30, 60, vlib.Seconds(40, 300))
		display(tr, true)
		closes.Walk("Tci", whole(rx.StrainMode), 1<<30, 50, vlib.Seconds(60, 400))
		recordWhole(wtr, rx.StrainMode, vlib.N(4, 60), func(s *randomWhole) { s.ends = true })
		vlib.Exit()
	})
}
