package progt

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/jfreymuth/pulse/proto"

	"vh/sim"
)

const (
	blockSize = 512
	parts     = 4
	center0   = 7020000
)

// radio is a source of IQ data.
type radio interface {
	rate() int
	connected() bool
	// hello returns the commands with which the program begins.
	hello() []string
	send(sigs []sim.Sig, first int) // the next four blocks
	pace() time.Duration            // between them
	close()
}

func frequency(r radio, center, bin int) float64 {
	return float64(center) + float64(bin-blockSize/2)*float64(r.rate())/blockSize
}

// wsServer is a device that talks websocket.
type wsServer struct {
	port int
	srv  *http.Server
	mu   sync.Mutex
	conn *websocket.Conn
	path string
	log  []string
	mute bool // no binary messages
	stop func()
}

func (s *wsServer) serve(opened func(*websocket.Conn), take func(string)) {
	l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", s.port))
	if err != nil {
		panic(err)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
	s.srv = &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		c, err := up.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		s.mu.Lock()
		s.conn, s.path = c, r.URL.Path
		s.mu.Unlock()
		go opened(c)
		for {
			_, m, err := c.ReadMessage()
			if err != nil {
				return
			}
			take(string(m))
		}
	})}
	srv := s.srv
	go srv.Serve(l)
}

func (s *wsServer) write(kind int, b []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.conn != nil && (kind == websocket.TextMessage || !s.mute) {
		s.conn.WriteMessage(kind, b)
	}
}

func (s *wsServer) close() {
	s.srv.Close()
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.stop != nil {
		s.stop()
	}
	if s.conn != nil {
		s.conn.Close()
	}
}

func (s *wsServer) commands() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string{}, s.log...)
}

// ---- TCI ----

type tciDevice struct {
	wsServer
	trx     int
	vfo     int // a bin, 0 if there is none
	iq      *sim.IQ
	packets map[string][]byte
	markers map[string]int
	ready   bool
	deaf    bool // does not take anything any more
}

func newTCI(port, trx, vfo int) *tciDevice {
	d := &tciDevice{wsServer: wsServer{port: port}, trx: trx, vfo: vfo, iq: sim.NewIQ(blockSize), packets: map[string][]byte{}, markers: map[string]int{}}
	d.stop = func() { d.deaf = false }
	d.serve(d.opened, d.take)
	return d
}

// lose closes the connection and the port.
func (d *tciDevice) lose() {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.srv.Close()
	d.conn.Close()
	d.log, d.ready, d.mute = nil, false, true
}

// back opens the port again.
func (d *tciDevice) back() { d.serve(d.opened, d.take) }

func (d *tciDevice) rate() int { return 48000 }

func (d *tciDevice) opened(*websocket.Conn) {
	text := func(l ...string) {
		for _, m := range l {
			d.write(websocket.TextMessage, []byte(m))
		}
	}
	text("protocol:ExpertSDR3,1.8;", "device:SunSDR2DX;", "trx_count:2;", "if_limits:-22000,22000;")
	time.Sleep(150 * time.Millisecond)
	text("ready;")
	d.mu.Lock()
	vfo := d.vfo
	d.mu.Unlock()
	for trx := 0; trx < 2; trx++ {
		f := center0
		if trx != d.trx {
			f += 100000
		}
		text(fmt.Sprintf("dds:%d,%d;", trx, f))
		if vfo != 0 {
			d.tune(trx, vfo)
		}
	}
	d.mu.Lock()
	d.ready, d.mute = true, false
	d.mu.Unlock()
}

// tune moves VFO A of the TRX of interest to a bin, and everything else elsewhere.
func (d *tciDevice) tune(trx, bin int) {
	off := int(math.Round(float64(bin-blockSize/2) * 48000 / blockSize))
	for _, m := range []string{fmt.Sprintf("if:%d,1,%d;", d.trx, off+3000), fmt.Sprintf("if:%d,0,%d;", 1-d.trx, off-6000)} {
		d.write(websocket.TextMessage, []byte(m))
	}
	if trx == d.trx {
		d.mu.Lock()
		d.vfo = bin
		d.mu.Unlock()
		d.write(websocket.TextMessage, []byte(fmt.Sprintf("if:%d,0,%d;", d.trx, off)))
	}
}

func (d *tciDevice) connected() bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.ready
}

func (d *tciDevice) setDeaf() {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.deaf = true
}

func (d *tciDevice) isDeaf() bool {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.deaf
}

func (d *tciDevice) take(m string) {
	for d.isDeaf() {
		time.Sleep(100 * time.Millisecond)
	}
	d.mu.Lock()
	name, rest, _ := strings.Cut(strings.TrimSuffix(m, ";"), ":")
	args := strings.Split(rest, ",")
	switch {
	case name == "spot" && len(args) == 5:
		d.markers[args[0]], _ = strconv.Atoi(args[2])
	case name == "spot_delete" && len(args) == 1:
		delete(d.markers, args[0])
	default:
		d.log = append(d.log, strings.TrimSuffix(m, ";"))
	}
	d.mu.Unlock()
	d.write(websocket.TextMessage, []byte(m))
}

func (d *tciDevice) hello() []string {
	until(3*time.Second, func() bool {
		n := 0
		for _, c := range d.commands() {
			if strings.HasPrefix(c, "iq_") {
				n++
			}
		}
		return n >= 2
	})
	time.Sleep(50 * time.Millisecond)
	return d.commands()
}

// shown returns the markers of callsigns or listeners.
func (d *tciDevice) shown(callsigns bool) map[string]int {
	d.mu.Lock()
	defer d.mu.Unlock()
	r := map[string]int{}
	for n, f := range d.markers {
		if strings.HasPrefix(n, ">") == callsigns {
			r[strings.Trim(n, "<>")] = f
		}
	}
	return r
}

// packetKey tells packets with different contents apart.
func packetKey(sigs []sim.Sig, first int) string {
	key := ""
	for i := first; i < first+parts; i++ {
		for _, s := range sigs {
			key += fmt.Sprint(" ", s.Bin, s.Level, s.Key == nil || i < len(s.Key) && s.Key[i])
		}
		key += ";"
	}
	return key
}

func (d *tciDevice) packet(trx int, sigs []sim.Sig, first int) []byte {
	key := fmt.Sprint(trx, packetKey(sigs, first))
	if p, ok := d.packets[key]; ok {
		return p
	}
	var data []float32
	for i := first; i < first+parts; i++ {
		data = append(data, d.iq.Block(sigs, i, false)...)
	}
	var b bytes.Buffer
	head := [16]uint32{uint32(trx), 48000, 4, 0, 0, uint32(len(data)), 0}
	binary.Write(&b, binary.LittleEndian, head)
	binary.Write(&b, binary.LittleEndian, data)
	d.packets[key] = b.Bytes()
	return b.Bytes()
}

func (d *tciDevice) send(sigs []sim.Sig, first int) {
	d.write(websocket.BinaryMessage, d.packet(d.trx, sigs, first))
	if first%40 == 0 { // and a strong signal on the other TRX
		d.write(websocket.BinaryMessage, d.packet(1-d.trx, []sim.Sig{{Bin: 300, Level: 60}}, 0))
	}
}

func (d *tciDevice) pace() time.Duration { return 8 * time.Millisecond }

// ---- KiwiSDR ----

type kiwiServer struct {
	wsServer
	iq      *sim.IQ
	packets map[string][]byte
}

func newKiwi(port, center int) *kiwiServer {
	d := &kiwiServer{wsServer: wsServer{port: port}, iq: sim.NewIQ(blockSize), packets: map[string][]byte{}}
	d.serve(func(*websocket.Conn) {}, func(m string) {
		d.mu.Lock()
		d.log = append(d.log, m)
		first := len(d.log) == 1
		d.mu.Unlock()
		if first {
			d.write(websocket.BinaryMessage, []byte("MSG badp=0"))
			d.write(websocket.BinaryMessage, []byte("MSG audio_init=0 audio_rate=12000"))
		}
	})
	return d
}

func (d *kiwiServer) rate() int           { return 12000 }
func (d *kiwiServer) pace() time.Duration { return 8 * time.Millisecond }

func (d *kiwiServer) connected() bool { return len(d.hello()) == 3 }

// hello returns the authentication and the tuning.
func (d *kiwiServer) hello() []string {
	var r []string
	until(3*time.Second, func() bool {
		r = nil
		for _, m := range d.commands() {
			if strings.HasPrefix(m, "SET auth ") || strings.HasPrefix(m, "SET mod=") || strings.HasPrefix(m, "SET ident_user=") {
				r = append(r, strings.TrimPrefix(m, "SET "))
			}
		}
		return len(r) == 3
	})
	return r
}

func (d *kiwiServer) send(sigs []sim.Sig, first int) {
	key := packetKey(sigs, first)
	if p, ok := d.packets[key]; ok {
		d.write(websocket.BinaryMessage, p)
		return
	}
	b := append([]byte("SND"), make([]byte, 17)...)
	for i := first; i < first+parts; i++ {
		for _, x := range d.iq.Block(sigs, i, false) {
			b = binary.BigEndian.AppendUint16(b, uint16(int16(math.Round(float64(x)*math.MaxInt16))))
		}
	}
	d.packets[key] = b
	d.write(websocket.BinaryMessage, b)
}

// ---- PulseAudio ----

type pulseSource struct {
	name string
	rate int
}

type pulseServer struct {
	l       net.Listener
	sources []pulseSource // the first one is the default
	mu      sync.Mutex
	conn    net.Conn
	running bool
	ended   bool
	rec     struct{ source, rate, channels, index int }
	created bool
}

const pulseVersion = 12

func newPulse(path string, sources ...pulseSource) *pulseServer {
	l, err := net.Listen("unix", path)
	if err != nil {
		panic(err)
	}
	s := &pulseServer{l: l, sources: sources}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.conn = c
			s.mu.Unlock()
			s.serve(c)
		}
	}()
	return s
}

func (s *pulseServer) close() {
	s.l.Close()
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.conn != nil {
		s.conn.Close()
	}
}

func (s *pulseServer) state() (created, running, ended bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.created, s.running, s.ended
}

func (s *pulseServer) packet(index uint32, data []byte) {
	b := binary.BigEndian.AppendUint32(nil, uint32(len(data)))
	b = binary.BigEndian.AppendUint32(b, index)
	b = append(b, make([]byte, 12)...)
	s.conn.Write(append(b, data...))
}

func (s *pulseServer) serve(c net.Conn) {
	defer func() {
		s.mu.Lock()
		s.ended = true
		s.mu.Unlock()
	}()
	for {
		head := make([]byte, 20)
		if _, err := io.ReadFull(c, head); err != nil {
			return
		}
		body := make([]byte, binary.BigEndian.Uint32(head))
		if _, err := io.ReadFull(c, body); err != nil {
			return
		}
		op, tag := binary.BigEndian.Uint32(body[1:]), binary.BigEndian.Uint32(body[6:])
		s.mu.Lock()
		s.answer(op, tag, &tags{b: body[10:]})
		s.mu.Unlock()
	}
}

func (s *pulseServer) find(index uint32, name string) int {
	for i, x := range s.sources {
		if name == x.name || name == "" && (index == uint32(i) || index == proto.Undefined && i == 0) {
			return i
		}
	}
	return -1
}

func (s *pulseServer) answer(op, tag uint32, t *tags) {
	reply := func(v any) {
		b := []byte{'L', 0, 0, 0, 2, 'L'} // OpReply
		b = binary.BigEndian.AppendUint32(b, tag)
		if v != nil {
			b = encodeTags(b, v)
		}
		s.packet(proto.Undefined, b)
	}
	fail := func() {
		b := binary.BigEndian.AppendUint32([]byte{'L', 0, 0, 0, 0, 'L'}, tag) // OpError
		s.packet(proto.Undefined, append(b, 'L', 0, 0, 0, 5))                 // no such entity
	}
	switch op {
	case proto.OpAuth:
		reply(proto.AuthReply{Version: pulseVersion})
	case proto.OpSetClientName:
		reply(proto.SetClientNameReply{ClientIndex: 1})
	case proto.OpGetSourceInfo:
		i := s.find(t.uint32(), t.string())
		if i < 0 {
			fail()
			return
		}
		reply(proto.GetSourceInfoReply{SourceIndex: uint32(i), SourceName: s.sources[i].name, Device: "a source",
			SampleSpec: proto.SampleSpec{Format: proto.FormatInt16LE, Channels: 2, Rate: uint32(s.sources[i].rate)},
			ChannelMap: proto.ChannelMap{1, 2}, ChannelVolumes: proto.ChannelVolumes{256, 256}})
	case proto.OpCreateRecordStream:
		format, channels, rate := t.spec()
		t.channels()
		i := s.find(t.uint32(), t.string())
		if i < 0 || format != proto.FormatFloat32LE {
			fail()
			return
		}
		s.rec.source, s.rec.rate, s.rec.channels, s.rec.index = i, rate, channels, 3
		s.created = true
		m := proto.ChannelMap{0}
		if channels == 2 {
			m = proto.ChannelMap{1, 2}
		}
		reply(proto.CreateRecordStreamReply{StreamIndex: 3, SampleSpec: proto.SampleSpec{Format: byte(format), Channels: byte(channels), Rate: uint32(rate)}, ChannelMap: m,
			SourceIndex: uint32(i), SourceName: s.sources[i].name})
	case proto.OpCorkRecordStream:
		t.uint32()
		s.running = !t.bool()
		reply(nil)
	default:
		reply(nil)
	}
}

// play lets the sources sound: tones of some pitches, each while the key is down.
func (s *pulseServer) play(pitch []float64, key []bool, tick float64, amplitude float64) {
	s.mu.Lock()
	rate, channels, source := s.rec.rate, s.rec.channels, s.rec.source
	s.mu.Unlock()
	n := int(float64(len(key)) * tick * float64(rate))
	var b []byte
	for i := 0; i < n; i++ {
		v := float32(0)
		if pitch[source] != 0 && key[min(len(key)-1, int(float64(i)/(tick*float64(rate))))] {
			v = float32(amplitude * math.Sin(2*math.Pi*pitch[source]*float64(i)/float64(rate)))
		}
		b = binary.LittleEndian.AppendUint32(b, math.Float32bits(v))
		for c := 1; c < channels; c++ {
			b = append(b, 0, 0, 0, 0)
		}
	}
	for len(b) > 0 {
		k := min(len(b), 4096*channels)
		s.mu.Lock()
		if s.running {
			s.packet(3, b[:k])
		}
		s.mu.Unlock()
		b = b[k:]
	}
}

// tags reads the values of a request.
type tags struct{ b []byte }

func (t *tags) uint32() uint32 {
	v := binary.BigEndian.Uint32(t.b[1:])
	t.b = t.b[5:]
	return v
}

func (t *tags) bool() bool {
	v := t.b[0] == '1'
	t.b = t.b[1:]
	return v
}

func (t *tags) string() string {
	if t.b[0] == 'N' {
		t.b = t.b[1:]
		return ""
	}
	n := bytes.IndexByte(t.b[1:], 0)
	v := string(t.b[1 : 1+n])
	t.b = t.b[n+2:]
	return v
}

func (t *tags) spec() (format, channels, rate int) {
	format, channels, rate = int(t.b[1]), int(t.b[2]), int(binary.BigEndian.Uint32(t.b[3:]))
	t.b = t.b[7:]
	return
}

func (t *tags) channels() {
	t.b = t.b[2+int(t.b[1]):]
}

// encodeTags appends the fields of a reply.
func encodeTags(b []byte, v any) []byte {
	r := reflect.ValueOf(v)
	for i := 0; i < r.NumField(); i++ {
		if n, err := strconv.Atoi(string(r.Type().Field(i).Tag)); err == nil && n > pulseVersion {
			continue
		}
		switch x := r.Field(i).Interface().(type) {
		case uint32:
			b = binary.BigEndian.AppendUint32(append(b, 'L'), x)
		case proto.Version:
			b = binary.BigEndian.AppendUint32(append(b, 'L'), uint32(x))
		case string:
			b = append(append(append(b, 't'), x...), 0)
		case bool:
			if x {
				b = append(b, '1')
			} else {
				b = append(b, '0')
			}
		case proto.SampleSpec:
			b = binary.BigEndian.AppendUint32(append(b, 'a', x.Format, x.Channels), x.Rate)
		case proto.ChannelMap:
			b = append(append(b, 'm', byte(len(x))), x...)
		case proto.ChannelVolumes:
			b = append(b, 'v', byte(len(x)))
			for _, u := range x {
				b = binary.BigEndian.AppendUint32(b, u)
			}
		case proto.Microseconds:
			b = binary.BigEndian.AppendUint64(append(b, 'U'), uint64(x))
		default:
			panic(fmt.Sprintf("%T", x))
		}
	}
	return b
}
