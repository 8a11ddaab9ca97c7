// Package harness drives the real signalr code along schedules generated from the TLA+ specifications in
// ../spec and records what it does. It uses only the public API and the wire format.
package harness

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/philippseith/signalr"
)

// Act is one environment action of a schedule.
type Act map[string]any

func (a Act) S(k string) string {
	s, _ := a[k].(string)
	return s
}
func (a Act) I(k string) int {
	switch v := a[k].(type) {
	case float64:
		return int(v)
	case int:
		return v
	}
	return 0
}
func (a Act) B(k string) bool {
	b, _ := a[k].(bool)
	return b
}
func (a Act) Has(k string) bool { _, ok := a[k]; return ok }

// L returns a list valued field.
func (a Act) L(k string) []any {
	l, _ := a[k].([]any)
	return l
}

// Schedule is one line of the input of the driver.
type Schedule struct {
	ID   int   `json:"id"`
	Cfg  Act   `json:"cfg"`
	Acts []Act `json:"acts"`
}

// Step is one environment action and the observation after it.
type Step struct {
	Act Act `json:"act"`
	Obs any `json:"obs"`
}

// Run is the execution of one schedule.
type Run struct {
	T      *testing.T
	Cfg    Act
	Acts   []Act
	Steps  []Step
	Bubble bool // virtual time and exact quiescence
	Note   string
	Panic  string
	mx     sync.Mutex
}

// Settle waits until nothing happens anymore without time passing.
func (r *Run) Settle() {
	if r.Bubble {
		synctest.Wait()
		return
	}
	time.Sleep(150 * time.Millisecond)
}

// Advance lets time pass.
func (r *Run) Advance(d time.Duration) {
	time.Sleep(d)
	r.Settle()
}

func (r *Run) Rec(a Act, obs any) {
	// freeze obs
	b, err := json.Marshal(obs)
	if err != nil {
		panic(fmt.Sprintf("harness: obs %v: %v", obs, err))
	}
	r.Steps = append(r.Steps, Step{a, json.RawMessage(b)})
}

type driverFunc func(r *Run)

var drivers = map[string]driverFunc{}

type result struct {
	ID    int    `json:"id"`
	Cfg   Act    `json:"cfg"`
	Steps []Step `json:"steps"`
	Note  string `json:"note,omitempty"`
	Panic string `json:"panic,omitempty"`
}

func runOne(t *testing.T, d driverFunc, s Schedule, bubble bool) (res result) {
	r := &Run{T: t, Cfg: s.Cfg, Acts: s.Acts, Bubble: bubble}
	drive := func() {
		defer func() {
			p := recover()
			if p == nil {
				return
			}
			stack := string(debug.Stack())
			if i := strings.Index(stack, "\npanic("); i >= 0 {
				stack = stack[i+1:]
				if i = strings.Index(stack, "\n\t"); i >= 0 {
					stack = stack[i+1+strings.Index(stack[i+1:], "\n")+1:]
				}
			}
			var first string
			for _, l := range strings.Split(stack, "\n") {
				if !strings.HasPrefix(l, "\t") && !strings.HasPrefix(l, "runtime.") && !strings.HasPrefix(l, "panic(") {
					first = l
					break
				}
			}
			if !strings.HasPrefix(first, "verif.local/harness.") {
				fmt.Fprintf(os.Stderr, "panic: %v\n\ngoroutine 1 [running]:\n%s\n", p, stack)
				os.Exit(2)
			}
			// the code under test surprised the driver: what was recorded until now shows it
			r.Panic = fmt.Sprintf("%v\n%s", p, stack)
		}()
		d(r)
	}
	if bubble {
		func() {
			defer func() {
				if p := recover(); p != nil {
					msg := fmt.Sprint(p)
					if len(msg) > 9 && msg[:9] == "deadlock:" {
						// goroutines which outlive the schedule
						r.Note = "leak"
						return
					}
					panic(p)
				}
			}()
			synctest.Test(t, func(*testing.T) { drive() })
		}()
	} else {
		drive()
	}
	return result{ID: s.ID, Cfg: s.Cfg, Steps: r.Steps, Note: r.Note, Panic: r.Panic}
}

// DriverMain executes the schedules of $VERIF_IN and writes $VERIF_OUT.
func DriverMain(t *testing.T) {
	name := os.Getenv("VERIF_DRIVER")
	if name == "" {
		t.Skip("no driver given")
	}
	d, ok := drivers[name]
	if !ok {
		fmt.Fprintln(os.Stderr, "harness: unknown driver", name)
		os.Exit(2)
	}
	in, err := os.Open(os.Getenv("VERIF_IN"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(2)
	}
	out, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(2)
	}
	bubble := os.Getenv("VERIF_MODE") != "real"
	limit := 20
	if v, err := strconv.Atoi(os.Getenv("VERIF_WATCHDOG")); err == nil {
		limit = v
	}
	var started atomic.Int64
	started.Store(time.Now().UnixNano())
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			if time.Since(time.Unix(0, started.Load())) > time.Duration(limit)*time.Second {
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "harness: WATCHDOG\n%s\n", buf[:n])
				os.Exit(3)
			}
		}
	}()
	rd := bufio.NewReaderSize(in, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 {
			var s Schedule
			if e := json.Unmarshal(line, &s); e != nil {
				fmt.Fprintln(os.Stderr, "harness: bad schedule", e)
				os.Exit(2)
			}
			started.Store(time.Now().UnixNano())
			res := runOne(t, d, s, bubble)
			b, e := json.Marshal(res)
			if e != nil {
				fmt.Fprintln(os.Stderr, "harness:", e)
				os.Exit(2)
			}
			_, _ = out.Write(append(b, '\n'))
		}
		if err != nil {
			break
		}
	}
	_ = out.Close()
	os.Exit(0) // leaked goroutines of finished schedules do not matter
}

// jitter lets actions which are in progress at the same time meet each other at different points.
func jitter() {
	n := rand.IntN(4)
	if n == 0 {
		return
	}
	for n = rand.IntN(1 << (4 * n)); n > 0; n-- {
		if n%64 == 0 {
			runtime.Gosched()
		}
	}
}

// nolog swallows everything.
type nolog struct{}

func (nolog) Log(...interface{}) error { return nil }

// memConn is an in-memory signalr.Connection. What the code under test writes is given to onWrite, what it reads
// are the chunks given to Feed, each by (at least) one Read.
type memConn struct {
	ctx    context.Context
	cancel context.CancelFunc
	id     string

	mx      sync.Mutex
	in      [][]byte
	inErr   error
	inSig   chan struct{}
	wErr    error
	stall   chan struct{} // not nil: writes block until it is closed
	pending int           // blocked writes
	tries   int           // writes begun
	writes  [][]byte
	wTimes  []time.Time
	onWrite func([]byte)
	reads   int
	inRead  int // goroutines blocked in Read

	idHook func() // called by ConnectionID

	together bool // Read returns the end of the transport together with the last data
}

func newMemConn(parent context.Context, id string) *memConn {
	ctx, cancel := context.WithCancel(parent)
	return &memConn{ctx: ctx, cancel: cancel, id: id, inSig: make(chan struct{})}
}

func (c *memConn) Context() context.Context { return c.ctx }
func (c *memConn) ConnectionID() string {
	c.mx.Lock()
	h, id := c.idHook, c.id
	c.mx.Unlock()
	if h != nil {
		h()
	}
	return id
}
func (c *memConn) SetConnectionID(id string) {
	c.mx.Lock()
	c.id = id
	c.mx.Unlock()
}

func (c *memConn) signal() {
	close(c.inSig)
	c.inSig = make(chan struct{})
}

// Feed makes one chunk available to the reader.
func (c *memConn) Feed(b []byte) {
	if len(b) == 0 {
		return
	}
	c.mx.Lock()
	c.in = append(c.in, append([]byte(nil), b...))
	c.signal()
	c.mx.Unlock()
}

// FeedLast makes the last chunk available to the reader.
func (c *memConn) FeedLast(b []byte, err error) {
	c.mx.Lock()
	if len(b) > 0 {
		c.in = append(c.in, append([]byte(nil), b...))
	}
	c.inErr = err
	c.signal()
	c.mx.Unlock()
}

// Drop ends the transport: reads fail after the chunks fed before, writes fail at once.
func (c *memConn) Drop(err error) {
	c.mx.Lock()
	if c.inErr == nil {
		c.inErr = err
		c.wErr = io.ErrClosedPipe
	}
	if c.stall != nil {
		close(c.stall)
		c.stall = nil
	}
	c.signal()
	c.mx.Unlock()
}

// Close releases everything that may still use the connection.
func (c *memConn) Close() {
	c.Drop(io.EOF)
	c.cancel()
}

func (c *memConn) Stall() {
	c.mx.Lock()
	if c.stall == nil {
		c.stall = make(chan struct{})
	}
	c.mx.Unlock()
}

func (c *memConn) Unstall() {
	c.mx.Lock()
	if c.stall != nil {
		close(c.stall)
		c.stall = nil
	}
	c.mx.Unlock()
}

func (c *memConn) Read(p []byte) (int, error) {
	for {
		c.mx.Lock()
		if len(c.in) > 0 {
			n := copy(p, c.in[0])
			if n == len(c.in[0]) {
				c.in = c.in[1:]
			} else {
				c.in[0] = c.in[0][n:]
			}
			c.reads++
			var err error
			if c.together && len(c.in) == 0 {
				err = c.inErr
			}
			c.mx.Unlock()
			return n, err
		}
		if c.inErr != nil {
			err := c.inErr
			c.mx.Unlock()
			return 0, err
		}
		sig := c.inSig
		c.inRead++
		c.mx.Unlock()
		var ctxErr error
		select {
		case <-sig:
		case <-c.ctx.Done():
			ctxErr = c.ctx.Err()
		}
		c.mx.Lock()
		c.inRead--
		c.mx.Unlock()
		if ctxErr != nil {
			return 0, ctxErr
		}
	}
}

var errStalled = errors.New("connection ended while write was blocked")

func (c *memConn) Write(p []byte) (int, error) {
	c.mx.Lock()
	c.tries++
	for c.stall != nil && c.wErr == nil {
		stall := c.stall
		c.pending++
		c.mx.Unlock()
		var ctxErr error
		select {
		case <-stall:
		case <-c.ctx.Done():
			ctxErr = errStalled
		}
		c.mx.Lock()
		c.pending--
		if ctxErr != nil {
			c.mx.Unlock()
			return 0, ctxErr
		}
	}
	if c.wErr != nil {
		defer c.mx.Unlock()
		return 0, c.wErr
	}
	b := append([]byte(nil), p...)
	c.writes = append(c.writes, b)
	c.wTimes = append(c.wTimes, time.Now())
	c.mx.Unlock()
	if c.onWrite != nil {
		// The other end has a lock of its own. The writes of a connection are not concurrent
		c.onWrite(b)
	}
	return len(p), nil
}

// netOver makes a net.Conn of a memConn, for the library's wrapper around it.
type netOver struct{ *memConn }

func (netOver) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (netOver) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (netOver) SetDeadline(t time.Time) error      { return nil }
func (netOver) SetReadDeadline(t time.Time) error  { return nil }
func (netOver) SetWriteDeadline(t time.Time) error { return nil }
func (n netOver) Close() error {
	n.memConn.Close()
	return nil
}

// wire returns what the code under test gets for c: c itself, or the library's connection on top of it
func (r *Run) wire(c *memConn) signalr.Connection {
	if !r.Cfg.B("net") {
		return c
	}
	conn := signalr.NewNetConnection(c.ctx, netOver{c})
	conn.(interface{ SetConnectionID(string) }).SetConnectionID(c.ConnectionID())
	return conn
}

// TakeWrites returns the writes since the last call.
func (c *memConn) TakeWrites() [][]byte {
	c.mx.Lock()
	defer c.mx.Unlock()
	w := c.writes
	c.writes = nil
	return w
}
