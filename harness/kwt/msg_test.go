package kwt

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ftl/sdrainer/kiwi"
	"vh/vlib"
	"vh/wsnet"
)

type event struct {
	K    string `json:"k"`
	Rate int    `json:"rate"`
	S    []int  `json:"s"`
}

// recorder is the user of a client.
type recorder struct {
	events []event
	data   [][]float32
}

func (r *recorder) Connected(rate int) {
	r.events = append(r.events, event{"rate", rate, []int{}})
}

func (r *recorder) IQData(rate int, data []float32) {
	r.data = append(r.data, data)
	r.events = append(r.events, event{"data", rate, ints(data)})
}

// ints converts samples back to the numbers that were sent.
func ints(data []float32) []int {
	l := make([]int, len(data))
	for i, v := range data {
		n := int(math.Round(float64(v) * 32767))
		if v != float32(n)/32767 {
			n = 1000000
		}
		l[i] = n
	}
	return l
}

type msgDriver struct {
	net    *wsnet.Net
	conn   *wsnet.Conn
	r      *recorder
	client *kiwi.Client
}

func (d *msgDriver) Reset() {
	if d.client != nil {
		d.conn.HangUp()
		synctest.Wait()
		bounded(d.client.Close)
	}
	*d = msgDriver{net: &wsnet.Net{Credit: -1}, r: &recorder{}}
	wsnet.Install(d.net)
	var err error
	d.client, err = kiwi.Open("127.0.0.1:8073", user, password, center, width, d.r)
	if err != nil {
		panic(err)
	}
	d.conn = d.net.Last()
}

func codes(v any) string {
	var b strings.Builder
	for _, c := range list(v) {
		b.WriteRune(rune(vlib.Int(c)))
	}
	return b.String()
}

func list(v any) []any {
	switch l := v.(type) {
	case nil:
		return nil
	case []any:
		return l
	case []int:
		var r []any
		for _, x := range l {
			r = append(r, x)
		}
		return r
	case []M:
		var r []any
		for _, x := range l {
			r = append(r, x)
		}
		return r
	}
	panic(fmt.Sprintf("%T", v))
}

func asM(v any) M {
	if m, ok := v.(M); ok {
		return m
	}
	return M(v.(map[string]any))
}

func (d *msgDriver) Step(in M) any {
	d.r.events = []event{}
	switch vlib.Str(in["op"]) {
	case "msg":
		var parts []string
		for _, p := range list(in["parts"]) {
			m := asM(p)
			parts = append(parts, vlib.Str(m["k"])+"="+codes(m["v"]))
		}
		d.conn.Binary([]byte("MSG" + " "[:vlib.Int(len(parts)&1)] + strings.Join(parts, " ")))
	case "snd":
		var samples []int
		for _, x := range list(in["s"]) {
			samples = append(samples, vlib.Int(x))
		}
		b := sound(vlib.Int(in["header"]), samples)
		if in["odd"].(bool) {
			b = append(b, 99)
		}
		d.conn.Binary(b)
	case "junk":
		switch kind := vlib.Str(in["kind"]); kind {
		case "empty":
			d.conn.Binary(nil)
		case "short":
			d.conn.Binary([]byte("SN"))
		case "W/F", "EXT":
			d.conn.Binary([]byte(kind + strings.Repeat("\x01\xff", 30)))
		case "tag":
			d.conn.Binary([]byte("msg audio_rate=12000 down=1"))
		case "text":
			d.conn.Text("hello")
		case "textmsg":
			d.conn.Text("MSG audio_rate=8000 down=1")
		case "ping":
			d.conn.Frame(9, []byte("x"))
		}
	case "again":
		n := vlib.Int(in["n"]) - 1
		if n >= len(d.r.data) {
			return "missing"
		}
		return []event{{"data", 0, ints(d.r.data[n])}}
	case "closed":
		synctest.Wait()
		if d.conn.Closed() {
			return []event{{"closed", 0, []int{}}}
		}
		return []event{}
	}
	synctest.Wait()
	return d.r.events
}

func text(s string) []int {
	l := []int{}
	for _, c := range s {
		l = append(l, int(c))
	}
	return l
}

func randomMessage(r *rand.Rand) M {
	part := func() M {
		switch r.Intn(12) {
		case 0, 1:
			return M{"k": "audio_rate", "v": text(fmt.Sprint(1 + r.Intn(200000)))}
		case 2:
			v := []string{"0", "-12000", "abc", "", "12000Hz", "1e4", "12000.0", "0x10", "1_000", "1234567890123456789012345"}
			return M{"k": "audio_rate", "v": text(v[r.Intn(len(v))])}
		case 3:
			if r.Intn(4) == 0 {
				return M{"k": []string{"too_busy", "badp", "down"}[r.Intn(3)], "v": text("1")}
			}
			return M{"k": []string{"too_busy", "badp", "down"}[r.Intn(3)], "v": text([]string{"0", "", "10", "11"}[r.Intn(4)])}
		case 4:
			return M{"k": "load_cfg", "v": text([]string{"%7b%7d", "a+b", "%", "%zz"}[1+2*r.Intn(2)])}
		case 5:
			return M{"k": "compression", "v": text([]string{"0", "x", ""}[r.Intn(3)])}
		default:
			k := []string{"center_freq", "audio_rat", "audio_rates", "Audio_rate", "version_maj", "", "snd", "freq_offset", "down_", "badp2"}
			v := []string{"12000", "0", "1", "a=b", "", "-5.5", "%"}
			return M{"k": k[r.Intn(len(k))], "v": text(v[r.Intn(len(v))])}
		}
	}
	switch n := r.Intn(20); {
	case n < 7:
		parts := []M{}
		rates := 0
		for i := r.Intn(5); i > 0; i-- {
			p := part()
			if p["k"] == "audio_rate" {
				if rates++; rates > 1 {
					continue // what of two rates in one message counts is not specified
				}
			}
			parts = append(parts, p)
		}
		return M{"op": "msg", "parts": parts}
	case n < 16:
		header := 17
		if r.Intn(5) == 0 {
			header = r.Intn(17)
		}
		s := []int{}
		if header == 17 {
			for i := 2 * r.Intn(12); i > 0; i-- {
				s = append(s, r.Intn(65536)-32768)
			}
			if r.Intn(8) == 0 {
				s = append(s, r.Intn(65536)-32768)
			}
		}
		return M{"op": "snd", "header": header, "s": s, "odd": header == 17 && r.Intn(8) == 0}
	default:
		return M{"op": "junk", "kind": []string{"empty", "short", "W/F", "EXT", "tag", "text", "textmsg", "ping"}[r.Intn(8)]}
	}
}

func TestC25(t *testing.T) {
	g := vlib.LoadGraph("msg")
	tr := vlib.NewTrace("kiwi.ndjson")
	synctest.Test(t, func(t *testing.T) {
		d := &msgDriver{}
		g.Walk("KiwiMsg", d, 1<<30, 80, vlib.Seconds(60, 300))
		for i := 0; i < vlib.N(150, 3000) && !vlib.Violated(); i++ {
			d.Reset()
			tr.Reset(nil)
			vlib.Progress(M{"scenario": "random messages"})
			for n := 3 + vlib.Rand.Intn(40); n > 0; n-- {
				in := randomMessage(vlib.Rand)
				if vlib.Rand.Intn(6) == 0 && len(d.r.data) > 0 {
					in = M{"op": "again", "n": 1 + vlib.Rand.Intn(len(d.r.data))}
				} else if vlib.Rand.Intn(20) == 0 {
					in = M{"op": "closed"}
				}
				vlib.ProgressStep(in)
				tr.Ev(in, d.Step(in))
			}
			if vlib.Rand.Intn(10) == 0 {
				time.Sleep(7 * time.Second)
			}
		}
		if !vlib.Violated() {
			feed()
		}
		vlib.Exit()
	})
}
