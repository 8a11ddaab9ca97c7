package harness

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/coder/websocket"
	"github.com/philippseith/signalr"
)

// pipeNet is a network in memory.
type pipeNet struct {
	conns chan net.Conn
	done  chan struct{}
	once  sync.Once
	wrap  func(net.Conn) net.Conn // how the server sees a connection
	mx    sync.Mutex
	all   []net.Conn
}

func newPipeNet() *pipeNet {
	return &pipeNet{conns: make(chan net.Conn), done: make(chan struct{})}
}
func (n *pipeNet) Accept() (net.Conn, error) {
	select {
	case c := <-n.conns:
		return c, nil
	case <-n.done:
		return nil, net.ErrClosed
	}
}
func (n *pipeNet) Close() error   { n.once.Do(func() { close(n.done) }); return nil }
func (n *pipeNet) Addr() net.Addr { return pipeAddr{} }

type pipeAddr struct{}

func (pipeAddr) Network() string { return "pipe" }
func (pipeAddr) String() string  { return "pipe" }

func (n *pipeNet) dial(ctx context.Context, _, _ string) (net.Conn, error) {
	a, b := net.Pipe()
	var sc net.Conn = b
	if n.wrap != nil {
		sc = n.wrap(b)
	}
	n.mx.Lock()
	n.all = append(n.all, a, b)
	n.mx.Unlock()
	select {
	case n.conns <- sc:
		return a, nil
	case <-n.done:
		return nil, net.ErrClosed
	case <-ctx.Done():
		return nil, ctx.Err()
	}
}

// client is a http client with connections of its own.
func (n *pipeNet) client() *http.Client {
	return &http.Client{Transport: &http.Transport{DialContext: n.dial, DisableCompression: true, MaxIdleConnsPerHost: 2}}
}

// shut ends everything.
func (n *pipeNet) shut() {
	_ = n.Close()
	n.mx.Lock()
	defer n.mx.Unlock()
	for _, c := range n.all {
		_ = c.Close()
	}
}

// oddLog records what the http server complains about when a handler panics.
type oddLog struct {
	mx  sync.Mutex
	odd []string
}

func (o *oddLog) Write(p []byte) (int, error) {
	if strings.Contains(string(p), "panic") {
		o.add("http: " + string(p))
	}
	return len(p), nil
}
func (o *oddLog) add(s string) {
	o.mx.Lock()
	o.odd = append(o.odd, cut(s))
	o.mx.Unlock()
}
func (o *oddLog) take() []string {
	o.mx.Lock()
	defer o.mx.Unlock()
	l := append([]string{}, o.odd...)
	o.odd = nil
	return l
}

// startHTTP serves srv under /hub.
func startHTTP(srv signalr.Server, n *pipeNet, odd *oddLog) *http.Server {
	mux := http.NewServeMux()
	srv.MapHTTP(signalr.WithHTTPServeMux(mux), "/hub")
	hs := &http.Server{Handler: mux, ErrorLog: log.New(odd, "", 0)}
	go func() { _ = hs.Serve(n) }()
	return hs
}

// rawConn is the client side of a connection, made without the code under test.
type rawConn struct {
	mx     sync.Mutex
	buf    []byte
	msgs   []Msg
	ended  bool
	notify chan struct{}
	send   func([]byte) error
	drop   func()
}

func (c *rawConn) take(p []byte) {
	c.mx.Lock()
	c.buf = append(c.buf, p...)
	for {
		i := bytes.IndexByte(c.buf, 0x1e)
		if i < 0 {
			break
		}
		frame := c.buf[:i]
		if string(frame) != "{}" {
			m, _ := decode("json", frame)
			c.msgs = append(c.msgs, m)
		}
		c.buf = c.buf[i+1:]
	}
	c.mx.Unlock()
}
func (c *rawConn) end() {
	c.mx.Lock()
	c.ended = true
	c.mx.Unlock()
}
func (c *rawConn) over() bool {
	c.mx.Lock()
	defer c.mx.Unlock()
	return c.ended
}
func (c *rawConn) pull() []Msg {
	c.mx.Lock()
	defer c.mx.Unlock()
	m := c.msgs
	c.msgs = nil
	return m
}

const hubURL = "http://pipe/hub"

func idURL(id string) string {
	if id == "" {
		return hubURL
	}
	return hubURL + "?id=" + strings.ReplaceAll(id, "=", "%3D")
}

// dialWS opens a websocket. It returns nil when the server does not want it.
func dialWS(ctx context.Context, hc *http.Client, id string) (*rawConn, error) {
	dctx, dcancel := context.WithTimeout(ctx, sendTimeout)
	defer dcancel()
	ws, _, err := websocket.Dial(dctx, strings.Replace(idURL(id), "http:", "ws:", 1), &websocket.DialOptions{HTTPClient: hc})
	if err != nil {
		return nil, err
	}
	ws.SetReadLimit(-1)
	wctx, cancel := context.WithCancel(context.Background())
	c := &rawConn{
		send: func(p []byte) error {
			sctx, cancel := context.WithTimeout(wctx, sendTimeout)
			defer cancel()
			return ws.Write(sctx, websocket.MessageText, p)
		},
		drop: func() { cancel(); _ = ws.CloseNow() },
	}
	go func() {
		for {
			_, p, err := ws.Read(wctx)
			if err != nil {
				c.end()
				return
			}
			c.take(p)
		}
	}()
	if err := c.send(handshakeReq("json")); err != nil {
		c.drop()
		return nil, err
	}
	return c, nil
}

func post(ctx context.Context, hc *http.Client, id string, p []byte) (int, error) {
	req, err := http.NewRequestWithContext(ctx, "POST", idURL(id), bytes.NewReader(p))
	if err != nil {
		return 0, err
	}
	resp, err := hc.Do(req)
	if err != nil {
		return 0, err
	}
	_, _ = io.Copy(io.Discard, resp.Body)
	_ = resp.Body.Close()
	return resp.StatusCode, nil
}

// dialSSE opens an event stream.
func dialSSE(ctx context.Context, hc *http.Client, id string, handshake bool) (*rawConn, error) {
	return dialSSEHeld(ctx, hc, id, handshake, func() {})
}

// dialSSEHeld opens an event stream. It calls hold before it takes what it has read.
func dialSSEHeld(ctx context.Context, hc *http.Client, id string, handshake bool, hold func()) (*rawConn, error) {
	sctx, cancel := context.WithCancel(ctx)
	req, err := http.NewRequestWithContext(sctx, "GET", idURL(id), nil)
	if err != nil {
		cancel()
		return nil, err
	}
	req.Header.Set("Accept", "text/event-stream")
	late := time.AfterFunc(sendTimeout, cancel)
	resp, err := hc.Do(req)
	if err != nil || !late.Stop() {
		cancel()
		return nil, err
	}
	if resp.StatusCode != http.StatusOK {
		_ = resp.Body.Close()
		cancel()
		return nil, fmt.Errorf("status %v", resp.StatusCode)
	}
	c := &rawConn{
		send: func(p []byte) error {
			pctx, cancel := context.WithTimeout(sctx, sendTimeout)
			defer cancel()
			if code, err := post(pctx, hc, id, p); err != nil || code != http.StatusOK {
				return fmt.Errorf("post: %v %w", code, err)
			}
			return nil
		},
		drop: cancel,
	}
	go func() {
		rd := bufio.NewReader(resp.Body)
		var data []string
		for {
			line, err := rd.ReadString('\n')
			if err != nil {
				_ = resp.Body.Close()
				c.end()
				return
			}
			line = strings.TrimRight(line, "\r\n")
			hold()
			switch {
			case line == "":
				if len(data) > 0 {
					c.take([]byte(strings.Join(data, "\n")))
				}
				data = nil
			case strings.HasPrefix(line, "data:"):
				data = append(data, strings.TrimPrefix(line[5:], " "))
			case !strings.HasPrefix(line, ":"):
				c.take([]byte("{\"type\":99,\"error\":\"" + line + "\"}\x1e"))
			}
		}
	}()
	if handshake {
		if err := c.send(handshakeReq("json")); err != nil {
			cancel()
			return nil, err
		}
	}
	return c, nil
}

const (
	netSettle   = 100 * time.Millisecond
	sendTimeout = time.Second
)
