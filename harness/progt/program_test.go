package progt

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"vh/vlib"
)

// ---- the program ----

// program is a running process of the built program.
type program struct {
	cmd  *exec.Cmd
	mu   sync.Mutex
	out  bytes.Buffer
	err  bytes.Buffer
	done chan struct{}
	code int
}

var spawn = make(chan func())

func init() {
	go func() {
		// the processes are ended together with the thread that started them
		runtime.LockOSThread()
		for f := range spawn {
			f()
		}
	}()
}

func startProgram(env []string, args ...string) *program {
	p := &program{done: make(chan struct{})}
	p.cmd = exec.Command(os.Getenv("VERIF_BIN"), args...)
	p.cmd.Env = append([]string{"HOME=" + os.Getenv("HOME"), "PATH=/nowhere", "HTTP_PROXY=http://127.0.0.1:9", "HTTPS_PROXY=http://127.0.0.1:9"}, env...)
	p.cmd.Dir = os.Getenv("HOME")
	p.cmd.Stdout = writer{p, &p.out}
	p.cmd.Stderr = writer{p, &p.err}
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	started := make(chan error)
	spawn <- func() { started <- p.cmd.Start() }
	if err := <-started; err != nil {
		panic(err)
	}
	go func() {
		p.cmd.Wait()
		p.mu.Lock()
		p.code = p.cmd.ProcessState.ExitCode()
		p.mu.Unlock()
		close(p.done)
	}()
	return p
}

type writer struct {
	p *program
	b *bytes.Buffer
}

func (w writer) Write(b []byte) (int, error) {
	w.p.mu.Lock()
	defer w.p.mu.Unlock()
	return w.b.Write(b)
}

func (p *program) errors() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.err.String()
}

// crashed returns how the program crashed, if it did.
func (p *program) crashed() string {
	select {
	case <-p.done:
	default:
		return ""
	}
	e := p.errors()
	if strings.Contains(e, "\ngoroutine ") {
		for _, l := range strings.Split(e, "\n") {
			if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") {
				return l
			}
		}
	}
	return ""
}

func (p *program) printed() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.String()
}

// exit waits for the end of the program and returns its code.
func (p *program) exit(limit time.Duration) (int, bool) {
	select {
	case <-p.done:
		return p.code, true
	default:
	}
	select {
	case <-p.done:
		return p.code, true
	case <-time.After(limit):
		return 0, false
	}
}

func (p *program) kill() {
	p.cmd.Process.Kill()
	<-p.done
}

// ---- a telnet client ----

type client struct {
	conn net.Conn
	mu   sync.Mutex
	text strings.Builder
	done chan struct{}
}

func dialClient(port int) *client {
	conn, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), time.Second)
	if err != nil {
		return nil
	}
	c := &client{conn: conn, done: make(chan struct{})}
	go func() {
		defer close(c.done)
		b := make([]byte, 4096)
		for {
			n, err := conn.Read(b)
			c.mu.Lock()
			c.text.Write(b[:n])
			c.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	return c
}

// spots returns the lines that announce something.
func (c *client) spots() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	var r []string
	for _, l := range strings.Split(c.text.String(), "\n") {
		if strings.HasPrefix(l, "DX de ") {
			r = append(r, l)
		}
	}
	return r
}

// ---- ports ----

var nextPort atomic.Int64

func freePort() int {
	for {
		p := 15000 + (os.Getpid()*137+int(nextPort.Add(1)))%12000
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p))
		if err != nil {
			continue
		}
		l.Close()
		return p
	}
}

func accepts(port int) bool {
	c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), time.Second)
	if err != nil {
		return false
	}
	c.Close()
	return true
}

func until(limit time.Duration, f func() bool) bool {
	for end := time.Now().Add(limit); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}

// ---- how fast the machine is ----

type lag struct {
	stop chan struct{}
	max  atomic.Int64
}

func watchLag() *lag {
	l := &lag{stop: make(chan struct{})}
	go func() {
		for {
			start := time.Now()
			select {
			case <-l.stop:
				return
			case <-time.After(5 * time.Millisecond):
			}
			if d := time.Since(start).Milliseconds(); d > l.max.Load() {
				l.max.Store(d)
			}
		}
	}()
	return l
}

func (l *lag) tooMuch() bool {
	close(l.stop)
	return l.max.Load() > 80
}

func scratch(name string) string {
	return filepath.Join(vlib.OutDir, name)
}
