package scope

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"

	"github.com/ftl/sdrainer/scope/pb"
	"vh/vlib"
)

func TestMain(m *testing.M) {
	vlib.Setup()
	os.Exit(m.Run())
}

// patience is far longer than any correct call takes.
const patience = 10 * time.Second

// bounded tells if f returned.
func bounded(f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	select {
	case <-done:
		return true
	case <-time.After(patience):
		return false
	}
}

func eventually(f func() bool) bool {
	for limit := time.Now().Add(patience); time.Now().Before(limit); {
		if f() {
			return true
		}
		time.Sleep(200 * time.Microsecond)
	}
	return f()
}

// ---- the fan-out, graph Scope ----

type fanout struct {
	cap, numbers int
	server       *grpcServer
	started      bool
	stopped      bool
	ended        chan error
	next         int
	streams      map[int]chan *pb.Frame
	pending      bool
}

func (d *fanout) Reset() {
	d.halt()
	server, err := newGRPCServer("127.0.0.1:0", d.cap)
	if err != nil {
		panic(err)
	}
	*d = fanout{cap: d.cap, numbers: d.numbers, server: server, streams: map[int]chan *pb.Frame{}}
}

func (d *fanout) halt() {
	if d.server != nil && d.started && !d.stopped {
		d.Step(vlib.M{"op": "stop"})
	}
}

func (d *fanout) open() (chan *pb.Frame, bool) {
	var result chan *pb.Frame
	ok := bounded(func() { result = d.server.getFrameStream() })
	return result, ok
}

func (d *fanout) Step(in vlib.M) any {
	switch vlib.Str(in["op"]) {
	case "start":
		d.ended = make(chan error, 1)
		go func() { d.ended <- d.server.Start() }()
		d.started = true
		// a stream can be opened as soon as the server runs
		if _, ok := d.open(); !ok {
			return "stuck"
		}
		return "ok"
	case "show":
		frame := &pb.Frame{Frame: &pb.Frame_TimeFrame{TimeFrame: &pb.TimeFrame{StreamId: strconv.Itoa(d.next)}}}
		if !bounded(func() { d.server.SendFrame(frame) }) {
			return "stuck"
		}
		d.next = (d.next + 1) % d.numbers
		d.pending = d.started
		return "ok"
	case "open":
		stream, ok := d.open()
		if !ok {
			return "stuck"
		}
		d.streams[vlib.Int(in["s"])] = stream
		return "ok"
	case "read":
		stream := d.streams[vlib.Int(in["s"])]
		if d.stopped {
			select {
			case frame, open := <-stream:
				return frameNumber(frame, open)
			case <-time.After(patience):
				return "still open"
			}
		}
		if d.pending {
			// wait until the frames shown so far have been handed out
			if _, ok := d.open(); !ok {
				return "stuck"
			}
			d.pending = false
		}
		select {
		case frame, open := <-stream:
			return frameNumber(frame, open)
		default:
			return "nothing"
		}
	case "stop":
		if !bounded(d.server.Stop) {
			return "stuck"
		}
		if d.started && !d.stopped {
			select {
			case <-d.ended:
			case <-time.After(patience):
				return "not stopped"
			}
			d.stopped = true
		}
		return "ok"
	}
	panic(fmt.Sprint(in))
}

func frameNumber(frame *pb.Frame, open bool) any {
	if !open {
		return "ended"
	}
	n, err := strconv.Atoi(frame.GetTimeFrame().GetStreamId())
	if err != nil {
		return "broken"
	}
	return n
}

// ---- frames as text ----

func f32(v float64) string { return strconv.FormatFloat(v, 'g', -1, 32) }

func sorted[K ~string](kind string, m map[K]float64) string {
	var l []string
	for k, v := range m {
		l = append(l, strconv.Quote(string(k))+"="+f32(v))
	}
	sort.Strings(l)
	return kind + "{" + strings.Join(l, ",") + "}"
}

func stamp(t time.Time) string { return fmt.Sprintf("@%d.%09d", t.Unix(), t.Nanosecond()) }

func timeText(f *TimeFrame) string {
	return strconv.Quote(string(f.Stream)) + stamp(f.Timestamp) + sorted("v", f.Values)
}

func spectralText(f *SpectralFrame) string {
	var b strings.Builder
	b.WriteString(strconv.Quote(string(f.Stream)) + stamp(f.Timestamp))
	fmt.Fprintf(&b, "[%s..%s]n%d(", f32(f.FromFrequency), f32(f.ToFrequency), len(f.Values))
	if len(f.Values) < 100 {
		for _, v := range f.Values {
			b.WriteString(f32(v) + " ")
		}
	} else {
		// the text of a large frame names some of its values and a checksum
		var sum uint64
		for _, v := range f.Values {
			sum = sum*1099511628211 + uint64(int64(v*16))
		}
		fmt.Fprintf(&b, "%x", sum)
	}
	b.WriteString(")" + sorted("f", f.FrequencyMarkers) + sorted("m", f.MagnitudeMarkers))
	return b.String()
}

func pbText(f *pb.Frame) (kind, text string) {
	wide := func(m map[string]float32) map[string]float64 {
		r := map[string]float64{}
		for k, v := range m {
			r[k] = float64(v)
		}
		return r
	}
	switch raw := f.GetFrame().(type) {
	case *pb.Frame_TimeFrame:
		t := raw.TimeFrame
		return "t", strconv.Quote(t.StreamId) + fmt.Sprintf("@%d.%09d", t.Timestamp.GetSeconds(), t.Timestamp.GetNanos()) + sorted("v", wide(t.Values))
	case *pb.Frame_SpectralFrame:
		s := raw.SpectralFrame
		values := make([]float64, len(s.Values))
		for i, v := range s.Values {
			values[i] = float64(v)
		}
		x := spectralText(&SpectralFrame{Frame: Frame{Stream: StreamID(s.StreamId)}, FromFrequency: float64(s.FromFrequency), ToFrequency: float64(s.ToFrequency),
			Values: values, FrequencyMarkers: conv(wide(s.FrequencyMarkers)), MagnitudeMarkers: conv(wide(s.MagnitudeMarkers))})
		return "s", strings.Replace(x, stamp(time.Time{}), fmt.Sprintf("@%d.%09d", s.Timestamp.GetSeconds(), s.Timestamp.GetNanos()), 1)
	}
	return "?", "unknown frame"
}

func conv(m map[string]float64) map[MarkerID]float64 {
	r := map[MarkerID]float64{}
	for k, v := range m {
		r[MarkerID(k)] = v
	}
	return r
}

// ---- viewers over the network ----

// item is a received frame, or the end of the stream if the kind is empty
type item struct{ kind, text string }

type viewer struct {
	slow   bool
	typed  bool // uses the client of the package, that splits the kinds
	items  map[string]chan item
	cancel func()
	ended  map[string]bool
}

func newViewer(address string, typed, slow bool) *viewer {
	v := &viewer{slow: slow, typed: typed, items: map[string]chan item{}, ended: map[string]bool{}}
	if typed {
		client := NewClient(address)
		if err := client.Open(); err != nil {
			panic(err)
		}
		times, spectra, err := client.GetFrames()
		if err != nil {
			client.Close()
			return nil
		}
		v.items["t"] = make(chan item, 100000)
		v.items["s"] = make(chan item, 100000)
		go func() {
			for f := range times {
				v.items["t"] <- item{"t", timeText(f)}
			}
			v.items["t"] <- item{}
		}()
		go func() {
			for f := range spectra {
				v.items["s"] <- item{"s", spectralText(f)}
			}
			v.items["s"] <- item{}
		}()
		v.cancel = func() { client.Close() }
		return v
	}
	conn, err := grpc.NewClient(address, grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		panic(err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	stream, err := pb.NewScopeClient(conn).GetFrames(ctx, nil)
	if err != nil {
		cancel()
		conn.Close()
		return nil
	}
	size := 100000
	if slow {
		size = 0
	}
	v.items[""] = make(chan item, size)
	go func() {
		for {
			f, err := stream.Recv()
			it := item{}
			if err == nil {
				it.kind, it.text = pbText(f)
			}
			select {
			case v.items[""] <- it:
			case <-ctx.Done():
				return
			}
			if err != nil {
				return
			}
		}
	}()
	v.cancel = func() { cancel(); conn.Close() }
	return v
}

func (v *viewer) recv(kind string, wait time.Duration) (item, bool) {
	select {
	case it := <-v.items[kind]:
		return it, true
	default:
	}
	select {
	case it := <-v.items[kind]:
		return it, true
	case <-time.After(wait):
		return item{}, false
	}
}

// ---- random frames ----

var (
	buffer = make([]float64, 0, 1<<18)
	serial int
)

func name(r *rand.Rand) string {
	return fmt.Sprint(serial, "-") + short(r)
}

func short(r *rand.Rand) string {
	return []string{"", "spectrum", "demod", "Ω/α β", "listener-17", "a\x00b"}[r.Intn(6)]
}

func value(r *rand.Rand) float64 {
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return -float64(r.Intn(1000)) / 8
	case 2:
		return float64(float32(r.NormFloat64() * 1e-20))
	default:
		return float64(float32(r.Float64() * 1000))
	}
}

func when(r *rand.Rand) time.Time {
	t := time.Unix(1700000000+int64(r.Intn(1e6)), int64(r.Intn(1e9)))
	switch r.Intn(4) {
	case 0:
		return t.UTC()
	case 1:
		return t.In(time.FixedZone("x", 3600*5+1800))
	case 2:
		return time.Unix(-int64(r.Intn(1e6)), int64(r.Intn(1e9)))
	}
	return t
}

func randomTime(r *rand.Rand) *TimeFrame {
	serial++
	f := &TimeFrame{Frame: Frame{Stream: StreamID(name(r)), Timestamp: when(r)}}
	if r.Intn(5) > 0 {
		f.Values = map[ChannelID]float64{"n": float64(serial)}
		for i := r.Intn(5); i > 0; i-- {
			f.Values[ChannelID(short(r))] = value(r)
		}
	}
	return f
}

func randomSpectral(r *rand.Rand, size int) *SpectralFrame {
	serial++
	f := &SpectralFrame{Frame: Frame{Stream: StreamID(name(r)), Timestamp: when(r)},
		FromFrequency: value(r), ToFrequency: value(r), Values: buffer[:size]}
	for i := range f.Values {
		f.Values[i] = float64(r.Intn(2000)-1000) / 8
	}
	if r.Intn(5) > 0 {
		f.FrequencyMarkers = map[MarkerID]float64{"n": float64(serial)}
		f.MagnitudeMarkers = map[MarkerID]float64{}
		for i := r.Intn(4); i > 0; i-- {
			f.FrequencyMarkers[MarkerID(short(r))] = value(r)
			f.MagnitudeMarkers[MarkerID(short(r))] = value(r)
		}
	}
	return f
}

// scribble reuses everything the frame refers to, as the owner of the frame may after it was shown.
func scribble(t *TimeFrame, s *SpectralFrame) {
	if t != nil {
		for k := range t.Values {
			t.Values[k] = -77
		}
		t.Stream = "scribble"
		return
	}
	for i := range s.Values {
		s.Values[i] = -77
	}
	for k := range s.FrequencyMarkers {
		s.FrequencyMarkers[k] = -77
	}
	for k := range s.MagnitudeMarkers {
		delete(s.MagnitudeMarkers, k)
	}
	s.Stream = "scribble"
}

func startScope() (*ScopeServer, string) {
	server := NewScopeServer("127.0.0.1:0")
	if err := server.Start(); err != nil {
		panic(err)
	}
	if !eventually(func() bool { return server.Active() && server.Addr() != nil }) {
		vlib.Violate("a started scope server does not become active", nil)
		return nil, ""
	}
	return server, server.Addr().String()
}

// streams records what viewers over the network receive.
func streams(tr *vlib.Trace, r *rand.Rand, big bool) bool {
	server, address := startScope()
	if server == nil {
		return false
	}
	defer server.Stop()
	hold := 0
	if big {
		hold = 50
	}
	const margin = 2
	tr.Reset(vlib.M{"cap": defaultOutBufferSize, "hold": hold})
	vlib.Progress(vlib.M{"scenario": "streams", "big": big})
	viewers := map[int]*viewer{}
	ids, stopped, failed := 0, false, false
	kinds := func(v *viewer) []string {
		if v.typed {
			return []string{"t", "s"}
		}
		return []string{""}
	}
	shown := map[string][]string{}
	position := map[int]map[string]int{} // the number of frames shown before the next frame of a viewer
	note := func(kind, text string, ok bool) bool {
		shown[kind] = append(shown[kind], text)
		shown[""] = append(shown[""], text)
		tr.Ev(vlib.M{"op": "show", "k": kind, "f": text}, map[bool]string{true: "ok", false: "stuck"}[ok])
		return ok
	}
	show := func(size int) bool {
		if r.Intn(2) == 0 && size < 1000 {
			f := randomTime(r)
			text := timeText(f)
			ok := bounded(func() { server.ShowTimeFrame(f) })
			scribble(f, nil)
			return note("t", text, ok)
		}
		f := randomSpectral(r, size)
		text := spectralText(f)
		ok := bounded(func() { server.ShowSpectralFrame(f) })
		scribble(nil, f)
		return note("s", text, ok)
	}
	// recv notes the next frame of a viewer; tells if the stream goes on
	recv := func(id int, kind string, wait time.Duration) bool {
		v := viewers[id]
		it, ok := v.recv(kind, wait)
		o := it.text
		switch {
		case !ok:
			o = "nothing"
		case it.kind == "":
			o = "ended"
			v.ended[kind] = true
		default:
			if _, begun := position[id]; !begun {
				position[id] = map[string]int{"s": len(shown["s"])}
				for i, x := range shown[kind] {
					if x == o {
						position[id][kind] = i
					}
				}
			}
			position[id][kind]++
		}
		tr.Ev(vlib.M{"op": "recv", "v": id, "k": kind}, o)
		vlib.Count("received", 1)
		return ok && it.kind != ""
	}
	// drain reads what was shown, and sometimes checks that there is nothing more
	drain := func(id int) {
		for _, k := range kinds(viewers[id]) {
			for !viewers[id].ended[k] && (stopped || position[id][k] < len(shown[k])) {
				if !recv(id, k, patience) && !viewers[id].ended[k] {
					failed = true // what was recorded so far is not allowed by the specification
					return
				}
			}
			if !viewers[id].ended[k] && r.Intn(4) == 0 {
				recv(id, k, 3*time.Millisecond)
			}
		}
	}
	drainFast := func() {
		for id, v := range viewers {
			if !v.slow {
				drain(id)
			}
		}
	}
	open := func(typed, slow bool) {
		v := newViewer(address, typed, slow)
		if v == nil {
			vlib.Violate("a stream of a running scope server cannot be opened", nil)
			return
		}
		ids++
		tr.Ev(vlib.M{"op": "open", "v": ids, "slow": slow, "typed": typed}, "ok")
		// the stream begins some time after it was opened: show frames until one arrives
		for limit := time.Now().Add(patience); !vlib.Violated() && !failed; {
			f := randomTime(r)
			note("t", timeText(f), bounded(func() { server.ShowTimeFrame(f) }))
			drainFast()
			viewers[ids] = v
			goesOn := recv(ids, kinds(v)[0], 3*time.Millisecond)
			if goesOn {
				drain(ids)
				return
			}
			if v.ended[kinds(v)[0]] {
				return
			}
			delete(viewers, ids)
			if time.Now().After(limit) {
				vlib.Violate("a stream of a running scope server does not begin", nil)
			}
		}
	}
	pick := func(slow bool) int {
		for id, v := range viewers {
			if v.slow == slow {
				return id
			}
		}
		return 0
	}
	for i := 1 + r.Intn(2); i > 0; i-- {
		open(r.Intn(2) == 0, false)
	}
	rounds := 12
	if big {
		rounds = 9
	}
	for round := 0; round < rounds && !vlib.Violated() && !failed; round++ {
		switch r.Intn(7) {
		case 0, 1:
			if len(viewers) < 5 {
				open(false, true)
			}
		case 2:
			if len(viewers) < 5 {
				open(r.Intn(2) == 0, false)
			}
		case 3:
			if id := pick(r.Intn(2) == 0); id != 0 && len(viewers) > 1 {
				viewers[id].cancel()
				delete(viewers, id)
				tr.Ev(vlib.M{"op": "leave", "v": id}, "ok")
			}
		case 4:
			// a slow viewer reads some
			if id := pick(true); id != 0 {
				for i := r.Intn(8); i > 0 && !viewers[id].ended[""] && position[id][""] < len(shown[""]); i-- {
					if !recv(id, "", patience) {
						break
					}
				}
			}
		}
		if stopped {
			continue
		}
		size := r.Intn(20)
		if big {
			size = 250000
		}
		for i := 1 + r.Intn(defaultOutBufferSize-margin); i > 0; i-- {
			if !show(size) {
				return false
			}
		}
		drainFast()
	}
	if big && pick(true) != 0 {
		// a viewer that does not read for long loses its stream
		for i := 0; i < hold+1; i++ {
			if failed || !show(250000) {
				return false
			}
			drainFast()
		}
	}
	for id, v := range viewers {
		if v.slow && !failed {
			drain(id)
		}
	}
	if failed {
		return false
	}
	if r.Intn(2) == 0 {
		for i := 1 + r.Intn(defaultOutBufferSize-margin); i > 0; i-- {
			show(r.Intn(20))
		}
	}
	ok := bounded(server.Stop)
	stopped = true
	tr.Ev(vlib.M{"op": "stop"}, map[bool]string{true: "ok", false: "stuck"}[ok])
	for id := range viewers {
		if !failed {
			drain(id)
		}
	}
	for _, v := range viewers {
		v.cancel()
	}
	return !failed
}

func TestC22(t *testing.T) {
	limit := vlib.Seconds(40, 300)
	vlib.LoadGraph("scope3").Walk("Scope (3 streams)", &fanout{cap: 1, numbers: 3}, 1<<30, 60, limit)
	vlib.LoadGraph("scope2").Walk("Scope (2 streams)", &fanout{cap: 2, numbers: 4}, 1<<30, 60, limit)
	tr := vlib.NewTrace("streams.ndjson")
	for i := 0; i < vlib.N(14, 150) && !vlib.Violated(); i++ {
		if !streams(tr, vlib.Rand, i%5 == 4) {
			break
		}
	}
	vlib.Exit()
}
