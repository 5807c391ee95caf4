// Package wsnet replaces the network below websocket clients: the other end of each connection is in the hands of the
// test, which decides when a message is taken, and where reading and writing break.
package wsnet

import (
	"context"
	"crypto/sha1"
	"encoding/base64"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/gorilla/websocket"
)

// Conn is the client's end of a connection.
type Conn struct {
	mu      sync.Mutex
	changed chan struct{}

	shaken  bool
	request string
	refuse  bool

	in       []byte
	out      []byte
	credit   int // the number of writes that pass, -1 for any number
	readErr  bool
	writeErr bool
	eof      bool
	closed   bool
	deadline time.Time // of writes
}

// Net hands out the connections that are dialled.
type Net struct {
	Port      string // if set, only connections to this port go here, all others get a connection that remains silent
	Refuse    bool   // dialling fails
	Reject    bool   // the server does not upgrade the connection
	Credit    int    // the credit of new connections
	Dialled   []*Conn
	Addresses []string
	mu        sync.Mutex
}

// Install lets all websocket connections go to n.
func Install(n *Net) {
	d := *websocket.DefaultDialer
	d.NetDialContext = func(_ context.Context, _, addr string) (net.Conn, error) {
		n.mu.Lock()
		defer n.mu.Unlock()
		if n.Port != "" && !strings.HasSuffix(addr, ":"+n.Port) {
			return &Conn{changed: make(chan struct{}), credit: -1}, nil
		}
		n.Addresses = append(n.Addresses, addr)
		if n.Refuse {
			return nil, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}
		}
		c := &Conn{changed: make(chan struct{}), credit: n.Credit, refuse: n.Reject}
		n.Dialled = append(n.Dialled, c)
		return c, nil
	}
	*websocket.DefaultDialer = d
}

// Last returns the connection that was dialled last.
func (n *Net) Last() *Conn {
	n.mu.Lock()
	defer n.mu.Unlock()
	if len(n.Dialled) == 0 {
		return nil
	}
	return n.Dialled[len(n.Dialled)-1]
}

// SetRefuse decides whether dialling fails from now on.
func (n *Net) SetRefuse(refuse bool) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.Refuse = refuse
}

func (n *Net) Count() int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return len(n.Dialled)
}

func (c *Conn) update(f func()) {
	c.mu.Lock()
	defer c.mu.Unlock()
	f()
	close(c.changed)
	c.changed = make(chan struct{})
}

func (c *Conn) Read(p []byte) (int, error) {
	for {
		c.mu.Lock()
		switch {
		case c.closed:
			c.mu.Unlock()
			return 0, net.ErrClosed
		case c.readErr:
			c.mu.Unlock()
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}
		case len(c.in) > 0:
			n := copy(p, c.in)
			c.in = c.in[n:]
			c.mu.Unlock()
			return n, nil
		case c.eof:
			c.mu.Unlock()
			return 0, io.EOF
		}
		ch := c.changed
		c.mu.Unlock()
		<-ch
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	for {
		c.mu.Lock()
		switch {
		case c.closed:
			c.mu.Unlock()
			return 0, net.ErrClosed
		case c.writeErr:
			c.mu.Unlock()
			return 0, &net.OpError{Op: "write", Net: "tcp", Err: syscall.EPIPE}
		case !c.shaken:
			c.handshake(p)
			c.mu.Unlock()
			return len(p), nil
		case c.credit != 0:
			if c.credit > 0 {
				c.credit--
			}
			c.out = append(c.out, p...)
			close(c.changed)
			c.changed = make(chan struct{})
			c.mu.Unlock()
			return len(p), nil
		}
		ch, deadline := c.changed, c.deadline
		c.mu.Unlock()
		if deadline.IsZero() {
			<-ch
			continue
		}
		timeout := time.NewTimer(time.Until(deadline))
		select {
		case <-ch:
			timeout.Stop()
		case <-timeout.C:
			return 0, os.ErrDeadlineExceeded
		}
	}
}

func (c *Conn) handshake(p []byte) {
	c.request += string(p)
	if !strings.Contains(c.request, "\r\n\r\n") {
		return
	}
	c.shaken = true
	answer := "HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n"
	if !c.refuse {
		key := ""
		for _, line := range strings.Split(c.request, "\r\n") {
			if k, v, ok := strings.Cut(line, ":"); ok && strings.EqualFold(k, "Sec-WebSocket-Key") {
				key = strings.TrimSpace(v)
			}
		}
		sum := sha1.Sum([]byte(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
		answer = "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " +
			base64.StdEncoding.EncodeToString(sum[:]) + "\r\n\r\n"
	}
	c.in = append(c.in, answer...)
	close(c.changed)
	c.changed = make(chan struct{})
}

func (c *Conn) Close() error {
	c.mu.Lock()
	was := c.closed
	c.mu.Unlock()
	if was {
		return net.ErrClosed
	}
	c.update(func() { c.closed = true })
	return nil
}

func (c *Conn) LocalAddr() net.Addr               { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }
func (c *Conn) RemoteAddr() net.Addr              { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 2} }
func (c *Conn) SetDeadline(t time.Time) error     { return nil }
func (c *Conn) SetReadDeadline(t time.Time) error { return nil }

func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.update(func() { c.deadline = t })
	return nil
}

// ---- the server's side ----

// Request returns the request line of the handshake.
func (c *Conn) Request() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	line, _, _ := strings.Cut(c.request, "\r\n")
	return line
}

func (c *Conn) Shaken() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.shaken && !c.refuse }
func (c *Conn) Closed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.closed }

func (c *Conn) SetCredit(n int) { c.update(func() { c.credit = n }) }
func (c *Conn) BreakReads()     { c.update(func() { c.readErr = true }) }
func (c *Conn) BreakWrites()    { c.update(func() { c.writeErr = true }) }

// HangUp ends the connection: what was sent before can still be read, writes fail.
func (c *Conn) HangUp() { c.update(func() { c.eof = true; c.writeErr = true }) }

// Frame sends a websocket frame.
func (c *Conn) Frame(opcode byte, payload []byte) {
	head := []byte{0x80 | opcode}
	switch n := len(payload); {
	case n < 126:
		head = append(head, byte(n))
	case n < 1<<16:
		head = append(head, 126, byte(n>>8), byte(n))
	default:
		head = append(head, 127, 0, 0, 0, 0, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	}
	c.update(func() { c.in = append(append(c.in, head...), payload...) })
}

func (c *Conn) Binary(payload []byte) { c.Frame(2, payload) }
func (c *Conn) Text(payload string)   { c.Frame(1, []byte(payload)) }

// Raw sends bytes that need not be a frame.
func (c *Conn) Raw(b []byte) { c.update(func() { c.in = append(c.in, b...) }) }

// Next waits for the next messages; there are none once the connection is closed.
func (c *Conn) Next() []string {
	for {
		c.mu.Lock()
		ch, end := c.changed, c.closed || c.eof
		c.mu.Unlock()
		if l := c.Messages(); len(l) > 0 || end {
			return l
		}
		<-ch
	}
}

// Messages returns the text and binary messages the client has written so far, and forgets them.
func (c *Conn) Messages() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	var r []string
	for {
		b := c.out
		if len(b) < 2 {
			return r
		}
		opcode, n, pos := b[0]&15, int(b[1]&127), 2
		switch n {
		case 126:
			if len(b) < 4 {
				return r
			}
			n, pos = int(b[2])<<8|int(b[3]), 4
		case 127:
			if len(b) < 10 {
				return r
			}
			n, pos = int(b[6])<<24|int(b[7])<<16|int(b[8])<<8|int(b[9]), 10
		}
		mask := []byte{0, 0, 0, 0}
		if b[1]&128 != 0 {
			if len(b) < pos+4 {
				return r
			}
			mask = b[pos : pos+4]
			pos += 4
		}
		if len(b) < pos+n {
			return r
		}
		payload := make([]byte, n)
		for i := range payload {
			payload[i] = b[pos+i] ^ mask[i%4]
		}
		c.out = b[pos+n:]
		if opcode < 8 {
			r = append(r, string(payload))
		}
	}
}

// Dials returns the addresses that were dialled.
func (n *Net) Dials() []string {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]string{}, n.Addresses...)
}
