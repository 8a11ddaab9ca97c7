package harness

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/coder/websocket"
	"github.com/philippseith/signalr"
)

func init() { drivers["transport"] = transportDriver }

// The messages of spec/Transport.tla: a tag and a body made from tag and length

const trSmall = "ab \n\ndata: x\r\n\u2028ä世\U0001F600<&>\\\"\x1e\x00: "

func trBody(tag string, n int) string {
	head := tag + "#" + strconv.Itoa(n) + "#"
	var b strings.Builder
	b.WriteString(head)
	if strings.HasSuffix(tag, "s") {
		for i := 0; i < n; i++ {
			b.WriteString(trSmall)
		}
		return b.String()
	}
	for i := len(head); i < n; i++ {
		b.WriteByte("abcdefghijklmnopqrstuvwxyz 0123456789:,{}"[(i*7+n+i/40)%41])
	}
	return b.String()
}

// trCheck is the tag when body belongs to it
func trCheck(tag, body string) string {
	p := strings.SplitN(body, "#", 3)
	if len(p) == 3 {
		if n, err := strconv.Atoi(p[1]); err == nil && n < 1<<20 && trBody(tag, n) == body {
			return tag
		}
	}
	return "?" + tag + " " + strconv.Itoa(len(body))
}

type trLog struct {
	mx    sync.Mutex
	d, u  []string
	gone  bool // the server has seen the end
	abort func()
}

func (g *trLog) down(tag, body string) {
	g.mx.Lock()
	g.d = append(g.d, trCheck(tag, body))
	g.mx.Unlock()
}
func (g *trLog) up(tag, body string) {
	g.mx.Lock()
	g.u = append(g.u, trCheck(tag, body))
	g.mx.Unlock()
}

type trHub struct {
	signalr.Hub
	w *trWorld
}

func (h *trHub) OnConnected(id string) {
	g := h.w.log(id)
	g.mx.Lock()
	g.abort = h.Abort
	g.mx.Unlock()
}
func (h *trHub) OnDisconnected(id string) {
	g := h.w.log(id)
	g.mx.Lock()
	g.gone = true
	g.mx.Unlock()
}
func (h *trHub) Up(tag, body string) { h.w.log(h.ConnectionID()).up(tag, body) }
func (h *trHub) Call(tag, body string) string {
	h.w.log(h.ConnectionID()).up(tag, body)
	return body
}

// Stream sends n messages
func (h *trHub) Stream(from, n int, z string) <-chan []string {
	ch := make(chan []string)
	go func() {
		defer close(ch)
		for i := 1; i <= n; i++ {
			tag := fmt.Sprint(from+i) + z
			select {
			case ch <- []string{tag, h.w.body(tag, from+i)}:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return ch
}

// Take receives a stream
func (h *trHub) Take(ch <-chan []string) {
	g := h.w.log(h.ConnectionID())
	for m := range ch {
		if len(m) == 2 {
			g.up(m[0], m[1])
		} else {
			g.up("?", "")
		}
	}
}

type trReceiver struct{ g *trLog }

func (r *trReceiver) Down(tag, body string) { r.g.down(tag, body) }

type trWorld struct {
	r    *Run
	max  int
	srv  signalr.Server
	net  *pipeNet
	odd  *oddLog
	mx   sync.Mutex
	logs map[string]*trLog
	cs   []*trConn
}

func (w *trWorld) log(id string) *trLog {
	w.mx.Lock()
	defer w.mx.Unlock()
	if w.logs[id] == nil {
		w.logs[id] = &trLog{}
	}
	return w.logs[id]
}

// size is the size of message i in bytes
func (w *trWorld) size(z string, i int) int {
	switch z {
	case "b":
		return 4096 - 3 + i%7
	case "k":
		return 32768<<(i%2) - 3 + i/2%7
	case "m":
		return w.max
	case "o":
		return w.max + 300
	}
	return 1 + i%2
}

// body of a message from our code
func (w *trWorld) body(tag string, i int) string {
	n := w.size(tag[len(tag)-1:], i)
	if n > 100 {
		n -= 100
	}
	return trBody(tag, n)
}

// frame of a message made here, with the exact size
func (w *trWorld) frame(proto, target, tag string, i int) []byte {
	z := tag[len(tag)-1:]
	msg := func(n int) []byte {
		return encode(proto, Msg{Type: 1, Target: target, Args: []any{tag, trBody(tag, n)}})
	}
	n := w.size(z, i)
	if z == "s" {
		return msg(n)
	}
	l := len(msg(n)) - n - 1
	if proto == "messagepack" {
		_, k := uvarint(msg(n))
		l = len(msg(n)) - n - k
	}
	return msg(n - l)
}

func uvarint(b []byte) (v uint64, n int) {
	for i, c := range b {
		v |= uint64(c&0x7f) << (7 * i)
		if c < 0x80 {
			return v, i + 1
		}
	}
	return 0, 0
}

// trNet is the network of one peer
type trNet struct {
	net   *pipeNet
	chunk int
	mx    sync.Mutex
	conns []net.Conn
	cut   bool
}

type chunkConn struct {
	net.Conn
	n int
}

func (c *chunkConn) Read(p []byte) (int, error) {
	if len(p) > c.n {
		p = p[:c.n]
	}
	return c.Conn.Read(p)
}

func chunked(c net.Conn, n int) net.Conn {
	if n == 0 {
		return c
	}
	return &chunkConn{c, n}
}

func (t *trNet) dial(ctx context.Context, a, b string) (net.Conn, error) {
	t.mx.Lock()
	cut := t.cut
	t.mx.Unlock()
	if cut {
		return nil, net.ErrClosed
	}
	c, err := t.net.dial(ctx, a, b)
	if err != nil {
		return nil, err
	}
	t.mx.Lock()
	t.conns = append(t.conns, c)
	t.mx.Unlock()
	return chunked(c, t.chunk), nil
}

func (t *trNet) drop() {
	t.mx.Lock()
	defer t.mx.Unlock()
	t.cut = true
	for _, c := range t.conns {
		_ = c.Close()
	}
}

func (t *trNet) client() *http.Client {
	return &http.Client{Transport: &http.Transport{DialContext: t.dial, DisableCompression: true, MaxIdleConnsPerHost: 2}}
}

// trConn is one connection of the specification
type trConn struct {
	w        *trWorld
	peer, tr string
	proto    string
	net      *trNet
	hc       *http.Client
	id       string
	g        *trLog
	client   signalr.Client
	stop     context.CancelFunc
	ws       *websocket.Conn
	raw      *rawConn
	other    *trServer
	nd, nu   int
	restOf   []byte
	slow     *slowPost
	hold     chan struct{} // not nil: the peer does not read
	mx       sync.Mutex
}

func (c *trConn) dead() bool {
	if c.client != nil {
		return c.client.State() == signalr.ClientClosed
	}
	return c.raw.over()
}

func (c *trConn) gone() bool {
	if c.other != nil {
		return c.other.over()
	}
	c.g.mx.Lock()
	defer c.g.mx.Unlock()
	return c.g.gone
}

func (c *trConn) waitRead() {
	c.mx.Lock()
	h := c.hold
	c.mx.Unlock()
	if h != nil {
		<-h
	}
}

func (c *trConn) stall(on bool) {
	c.mx.Lock()
	defer c.mx.Unlock()
	if on && c.hold == nil {
		c.hold = make(chan struct{})
	} else if !on && c.hold != nil {
		close(c.hold)
		c.hold = nil
	}
}

// open connects
func (c *trConn) open(ctx context.Context) {
	c.hc = c.net.client()
	if c.peer == "raw" {
		id := ""
		resp, err := c.hc.Post(hubURL+"/negotiate", "", nil)
		if err != nil {
			panic(err)
		}
		var a struct{ ConnectionID string }
		_ = json.NewDecoder(resp.Body).Decode(&a)
		_ = resp.Body.Close()
		id = a.ConnectionID
		c.id, c.g = id, c.w.log(id)
		if c.tr == "ws" {
			c.raw, err = dialRawWS(ctx, c)
		} else {
			c.raw, err = dialSSEHeld(ctx, c.hc, id, true, c.waitRead)
		}
		if err != nil {
			panic(err)
		}
		return
	}
	tr := signalr.TransportWebSockets
	if c.tr == "sse" {
		tr = signalr.TransportServerSentEvents
	}
	conn, err := signalr.NewHTTPConnection(ctx, hubURL, signalr.WithHTTPClient(c.hc), signalr.WithTransports(tr))
	if err != nil {
		panic(err)
	}
	c.id = conn.ConnectionID()
	if c.other == nil {
		c.g = c.w.log(c.id)
	}
	clctx, stop := context.WithCancel(ctx)
	c.stop = stop
	c.client, err = signalr.NewClient(clctx, append(longOpts(), signalr.HandshakeTimeout(farAway), signalr.WithConnection(conn),
		signalr.MaximumReceiveMessageSize(uint(c.w.max)), signalr.TransferFormat(transferFormat(c.proto)),
		signalr.WithReceiver(&trReceiver{c.g}))...)
	if err != nil {
		panic(err)
	}
	c.client.Start()
}

func dialRawWS(ctx context.Context, c *trConn) (*rawConn, error) {
	ws, _, err := websocket.Dial(ctx, strings.Replace(idURL(c.id), "http:", "ws:", 1), &websocket.DialOptions{HTTPClient: c.hc})
	if err != nil {
		return nil, err
	}
	ws.SetReadLimit(-1)
	c.ws = ws
	wctx, cancel := context.WithCancel(ctx)
	rc := &rawConn{drop: func() { cancel(); _ = ws.CloseNow() }}
	rc.send = func(p []byte) error {
		sctx, cancel := context.WithTimeout(wctx, sendTimeout)
		defer cancel()
		return ws.Write(sctx, websocket.MessageText, p)
	}
	go func() {
		for {
			_, p, err := ws.Read(wctx)
			if err != nil {
				rc.end()
				return
			}
			c.waitRead()
			rc.take(p)
		}
	}()
	return rc, rc.send(handshakeReq("json"))
}

// wait returns what f returns, or late
func trWait[T any](ctx context.Context, late T, f func() T) T {
	ch := make(chan T, 1)
	go func() { ch <- f() }()
	select {
	case v := <-ch:
		return v
	case <-time.After(3 * sendTimeout):
		return late
	}
}

func okNo(err error) string {
	if err != nil {
		return "no"
	}
	return "ok"
}

// each runs f for 1..n, in parallel or not
func each(n int, par bool, f func(i int) string) []string {
	res := make([]string, n)
	var wg sync.WaitGroup
	for i := range res {
		if !par {
			res[i] = f(i + 1)
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			jitter()
			res[i] = f(i + 1)
		}()
	}
	wg.Wait()
	return res
}

func (c *trConn) down(act Act) {
	n, z, from := act.I("n"), act.S("z"), c.nd
	c.nd += n
	if c.other != nil {
		c.other.down(act.S("kind"), n, func(i int) []byte {
			return c.w.frame(c.proto, "Down", fmt.Sprint(from+i)+z, from+i)
		})
		return
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		each(n, act.B("par"), func(i int) string {
			tag := fmt.Sprint(from+i) + z
			c.w.srv.HubClients().Client(c.id).Send("Down", tag, c.w.body(tag, from+i))
			return ""
		})
	}()
	c.mx.Lock()
	held := c.hold != nil
	c.mx.Unlock()
	if !held {
		select {
		case <-done:
		case <-time.After(3 * sendTimeout):
			c.w.odd.add("Send does not return")
		}
	}
}

func (c *trConn) up(ctx context.Context, act Act) []string {
	n, z, from, wasDead := act.I("n"), act.S("z"), c.nu, c.dead()
	c.nu += n
	res := each(n, act.B("par"), func(i int) string {
		tag := fmt.Sprint(from+i) + z
		if c.raw != nil {
			return okNo(c.raw.send(c.w.frame("json", "Up", tag, from+i)))
		}
		body := c.w.body(tag, from+i)
		if act.S("a") == "call" {
			return trWait(ctx, "late", func() string {
				r := <-c.client.Invoke("Call", tag, body)
				if r.Error == nil && r.Value != body {
					return "wrong"
				}
				return okNo(r.Error)
			})
		}
		return trWait(ctx, "late", func() string { return okNo(<-c.client.Send("Up", tag, body)) })
	})
	if z == "o" && !wasDead {
		return []string{}
	}
	return res
}

func (c *trConn) pull(ctx context.Context, from, n int, z string) string {
	return trWait(ctx, "late", func() string {
		for r := range c.client.PullStream("Stream", from, n, z) {
			if r.Error != nil {
				return "no"
			}
			l, _ := r.Value.([]any)
			if len(l) != 2 {
				c.g.down("?", "")
				continue
			}
			tag, _ := l[0].(string)
			body, _ := l[1].(string)
			c.g.down(tag, body)
		}
		return "ok"
	})
}

func (c *trConn) push(ctx context.Context, from, n int, z string) string {
	return trWait(ctx, "late", func() string {
		ch := make(chan []string)
		res := c.client.PushStreams("Take", ch)
		stop := time.After(sendTimeout)
	loop:
		for i := 1; i <= n; i++ {
			tag := fmt.Sprint(from+i) + z
			select {
			case ch <- []string{tag, c.w.body(tag, from+i)}:
			case <-stop:
				break loop
			}
		}
		close(ch)
		for r := range res {
			if r.Error != nil {
				return "no"
			}
		}
		return "ok"
	})
}

func (c *trConn) streams(ctx context.Context, act Act) []string {
	p, q, n, z := act.I("p"), act.I("q"), act.I("n"), act.S("z")
	nd, nu := c.nd, c.nu
	c.nd += p * n
	c.nu += q * n
	return each(p+q, true, func(i int) string {
		if i <= p {
			return c.pull(ctx, nd+(i-1)*n, n, z)
		}
		return c.push(ctx, nu+(i-p-1)*n, n, z)
	})
}

// slowPost is a request which is under way
type slowPost struct {
	w    *io.PipeWriter
	rest []byte
	res  chan string
}

func (c *trConn) startPost(ctx context.Context, p []byte) *slowPost {
	r, w := io.Pipe()
	s := &slowPost{w: w, rest: p[len(p)/2:], res: make(chan string, 1)}
	req, err := http.NewRequestWithContext(ctx, "POST", idURL(c.id), r)
	if err != nil {
		panic(err)
	}
	req.ContentLength = int64(len(p))
	go func() {
		resp, err := c.hc.Do(req)
		if err != nil {
			s.res <- "no"
			return
		}
		_, _ = io.Copy(io.Discard, resp.Body)
		_ = resp.Body.Close()
		s.res <- map[bool]string{true: "ok", false: "no"}[resp.StatusCode == http.StatusOK]
	}()
	_, _ = trWriteSoon(w, p[:len(p)/2])
	return s
}

// trWriteSoon writes to a pipe which might not be read
func trWriteSoon(w *io.PipeWriter, p []byte) (int, error) {
	t := time.AfterFunc(sendTimeout, func() { _ = w.CloseWithError(io.ErrUnexpectedEOF) })
	defer t.Stop()
	return w.Write(p)
}

func (s *slowPost) end(cut bool) string {
	if cut {
		_ = s.w.CloseWithError(io.ErrUnexpectedEOF)
	} else {
		_, _ = trWriteSoon(s.w, s.rest)
		_ = s.w.Close()
	}
	select {
	case r := <-s.res:
		return r
	case <-time.After(sendTimeout):
		return "late"
	}
}

func (c *trConn) post(ctx context.Context, act Act) []string {
	z := act.S("z")
	next := func() []byte {
		c.nu++
		return c.w.frame("json", "Up", fmt.Sprint(c.nu)+z, c.nu)
	}
	send := func(p []byte) string {
		if c.tr == "ws" {
			return okNo(c.raw.send(p))
		}
		pctx, cancel := context.WithTimeout(ctx, sendTimeout)
		defer cancel()
		code, err := post(pctx, c.hc, c.id, p)
		if err == nil && code != http.StatusOK && (code < 400 || code >= 500) {
			c.w.odd.add(fmt.Sprint(act.S("kind"), ": ", code))
		}
		return map[bool]string{true: "ok", false: "no"}[err == nil && code == http.StatusOK]
	}
	switch act.S("kind") {
	case "join":
		a, b := next(), next()
		if c.tr == "sse" && len(a)+len(b) > c.w.max {
			// the limit may be for the request
			return []string{send(a), send(b)}[:1]
		}
		if c.tr == "ws" && len(a)+len(b) > c.w.max {
			return []string{send(a), send(b)}[:1]
		}
		return []string{send(append(a, b...))}
	case "frames":
		p := next()
		wctx, cancel := context.WithTimeout(ctx, sendTimeout)
		defer cancel()
		wr, err := c.ws.Writer(wctx, websocket.MessageText)
		if err != nil {
			return []string{"no"}
		}
		for _, i := range []int{1, len(p) / 3, len(p) / 3, len(p) - 1} {
			i = min(i, len(p))
			if err == nil {
				_, err = wr.Write(p[:i])
			}
			p = p[i:]
		}
		if err == nil {
			_, err = wr.Write(p)
		}
		if err == nil {
			err = wr.Close()
		}
		return []string{okNo(err)}
	case "first":
		p := next()
		n := 1 + rand.IntN(len(p)-1)
		c.restOf = p[n:]
		return []string{send(p[:n])}
	case "rest":
		return []string{send(c.restOf)}
	case "empty":
		return []string{send(nil)}
	case "ping":
		pctx, cancel := context.WithTimeout(ctx, sendTimeout)
		defer cancel()
		return []string{okNo(c.ws.Ping(pctx))}
	case "big":
		c.nu++
		tag := fmt.Sprint(c.nu) + "o"
		return []string{send(c.w.frame("json", "Up", tag, c.nu))}
	case "cut":
		s := c.startPost(ctx, next())
		c.w.r.Advance(time.Millisecond)
		return []string{s.end(true)}
	case "twin":
		ps := [][]byte{next(), next()}
		return each(2, true, func(i int) string { return send(ps[i-1]) })
	case "slow":
		c.slow = c.startPost(ctx, next())
		return []string{}
	case "beside":
		return []string{send(next())}
	case "slowend", "slowcut":
		s := c.slow
		c.slow = nil
		return []string{s.end(act.S("kind") == "slowcut")}
	}
	panic(act)
}

func (c *trConn) end(how string) {
	switch how {
	case "stop":
		go c.client.Stop()
	case "drop":
		c.net.drop()
		if c.raw != nil {
			c.raw.drop()
		}
	case "abort":
		c.g.mx.Lock()
		abort := c.g.abort
		c.g.mx.Unlock()
		abort()
	case "bye":
		if c.other != nil {
			c.other.down("plain", 1, func(int) []byte { return encode(c.proto, Msg{Type: 7}) })
		} else {
			_ = c.raw.send([]byte("{\"type\":7}\x1e"))
		}
	case "eof":
		c.other.end()
	}
}

func transportDriver(r *Run) {
	ctx, cancel := context.WithCancel(context.Background())
	sctx, scancel := context.WithCancel(ctx)
	w := &trWorld{r: r, max: r.Cfg.I("max"), net: newPipeNet(), odd: &oddLog{}, logs: map[string]*trLog{}}
	chunk := r.Cfg.I("chunk")
	if chunk > 0 {
		w.net.wrap = func(c net.Conn) net.Conn { return chunked(c, chunk) }
	}
	srv, err := signalr.NewServer(sctx, append(longOpts(), signalr.HandshakeTimeout(farAway), signalr.MaximumReceiveMessageSize(uint(w.max)),
		signalr.HubFactory(func() signalr.HubInterface { return &trHub{w: w} }))...)
	if err != nil {
		panic(err)
	}
	w.srv = srv
	hs := startHTTP(srv, w.net, w.odd)
	others := []*trServer{}
	for i, p := range r.Cfg.L("conns") {
		s := strings.Split(p.(string), " ")
		c := &trConn{w: w, peer: s[0], tr: s[1], proto: s[2], net: &trNet{net: w.net, chunk: chunk}}
		if c.peer == "srv" {
			c.g = &trLog{}
			c.other = newTrServer(ctx, c, chunk)
			c.net.net = c.other.net
			others = append(others, c.other)
		}
		_ = i
		w.cs = append(w.cs, c)
		c.open(ctx)
	}
	r.Advance(2 * netSettle)
	for _, act := range r.Acts {
		res := []string{}
		var c *trConn
		if k := act.I("k"); k > 0 {
			c = w.cs[k-1]
		}
		settle := netSettle
		switch act.S("a") {
		case "down":
			c.down(act)
		case "up", "call":
			res = c.up(ctx, act)
		case "streams":
			res = c.streams(ctx, act)
		case "post":
			res = c.post(ctx, act)
		case "fail":
			c.nu++
			c.other.fail(act.S("how"))
			tag := fmt.Sprint(c.nu) + "s"
			res = []string{trWait(ctx, "late", func() string { return okNo(<-c.client.Send("Up", tag, w.body(tag, c.nu))) })}
		case "stall":
			c.stall(c.hold == nil)
		case "end":
			c.end(act.S("how"))
			settle = c.endSettle()
		case "race":
			n, z, nd, nu := act.I("n"), act.S("z"), c.nd, c.nu
			if act.S("dir") == "down" {
				c.nd += n
				go c.pull(ctx, nd, n, z)
			} else {
				c.nu += n
				go c.push(ctx, nu, n, z)
			}
			time.Sleep([]time.Duration{0, time.Microsecond, time.Millisecond, 60 * time.Millisecond}[rand.IntN(4)])
			c.end(act.S("how"))
			settle = c.endSettle()
		case "halt":
			scancel()
			for _, c := range w.cs {
				if c.other == nil {
					settle = max(settle, c.endSettle())
				}
			}
		}
		r.Advance(settle)
		obs := map[string]any{"ok": res}
		var d, u [][]string
		var cl, sv []string
		onOff := map[bool]string{true: "off", false: "on"}
		for _, c := range w.cs {
			if c.raw != nil {
				for _, m := range c.raw.pull() {
					switch {
					case m.Type == 1 && m.Target == "Down" && len(m.Args) == 2:
						tag, _ := m.Args[0].(string)
						body, _ := m.Args[1].(string)
						c.g.down(tag, body)
					case m.Type == 7 || m.Type == 6:
					default:
						w.odd.add(fmt.Sprintf("message %+v", m))
					}
				}
			}
			c.g.mx.Lock()
			dd, uu := append([]string{}, c.g.d...), append([]string{}, c.g.u...)
			c.g.d, c.g.u = nil, nil
			c.g.mx.Unlock()
			if c.other != nil {
				for _, m := range c.other.pull() {
					switch {
					case m.Type == 1 && m.Target == "Up" && len(m.Args) == 2:
						tag, _ := m.Args[0].(string)
						body, _ := m.Args[1].(string)
						uu = append(uu, trCheck(tag, body))
					case m.Type == 7 || m.Type == 6:
					default:
						w.odd.add(fmt.Sprintf("message %+v", m))
					}
				}
			}
			// where the order can not be seen
			switch a := act.S("a"); {
			case a == "streams":
				// each stream has an order of its own
				n := act.I("n")
				byNumber(dd, n, c.nd-act.I("p")*n)
				byNumber(uu, n, c.nu-act.I("q")*n)
			case act.B("par"):
				byNumber(dd, 1, 0)
				byNumber(uu, 1, 0)
			case a == "race":
			default:
				byNumber(dd, 1, 0) // Send does not wait
				if c.other == nil {
					byNumber(uu, 1, 0)
				}
			}
			d, u = append(d, dd), append(u, uu)
			cl, sv = append(cl, onOff[c.dead()]), append(sv, onOff[c.gone()])
		}
		obs["d"], obs["u"], obs["cl"], obs["sv"], obs["odd"] = d, u, cl, sv, w.odd.take()
		r.Rec(act, obs)
	}
	for _, c := range w.cs {
		c.stall(false)
		if c.stop != nil {
			c.stop()
		}
		if c.raw != nil {
			c.raw.drop()
		}
		if c.slow != nil {
			_ = c.slow.w.CloseWithError(io.ErrUnexpectedEOF)
		}
	}
	scancel()
	if r.Bubble {
		r.Advance(10 * time.Second)
	}
	cancel()
	_ = hs.Close()
	for _, o := range others {
		o.shut()
	}
	w.net.shut()
	if r.Bubble {
		r.Advance(10 * time.Second)
	}
}

// endSettle lets a peer who does not read go on; it is the time the end may take
func (c *trConn) endSettle() time.Duration {
	c.mx.Lock()
	held := c.hold != nil
	c.mx.Unlock()
	if held {
		c.w.r.Advance(6 * time.Second)
		c.stall(false)
	}
	if c.slow != nil {
		_ = c.slow.w.CloseWithError(io.ErrUnexpectedEOF)
		c.slow = nil
	}
	return 2 * netSettle
}

// byNumber sorts tags when the order can not be seen. n tags in a row stay as they are.
func byNumber(l []string, n, from int) {
	num := func(s string) int {
		k, _ := strconv.Atoi(strings.TrimRight(s, "sbkmo"))
		return (k - from - 1) / n
	}
	sort.SliceStable(l, func(i, j int) bool { return num(l[i]) < num(l[j]) })
}

// trServer is a server which is not ours
type trServer struct {
	c       *trConn
	net     *pipeNet
	hs      *http.Server
	mx      sync.Mutex
	buf     []byte
	msgs    []Msg
	hs1     bool
	out     chan []byte
	gone    chan struct{}
	isGone  bool
	closed  chan struct{}
	writing chan struct{}
	failN   string
	w       http.ResponseWriter
	ws      *websocket.Conn
	ctx     context.Context
}

func newTrServer(ctx context.Context, c *trConn, chunk int) *trServer {
	s := &trServer{c: c, net: newPipeNet(), closed: make(chan struct{}), writing: make(chan struct{}, 1), ctx: ctx}
	if chunk > 0 {
		s.net.wrap = func(c net.Conn) net.Conn { return chunked(c, chunk) }
	}
	s.hs = &http.Server{Handler: http.HandlerFunc(s.serve)}
	go func() { _ = s.hs.Serve(s.net) }()
	return s
}

func (s *trServer) over() bool { s.mx.Lock(); defer s.mx.Unlock(); return s.isGone }
func (s *trServer) goneNow()   { s.mx.Lock(); s.isGone = true; s.mx.Unlock() }
func (s *trServer) fail(how string) {
	s.mx.Lock()
	s.failN = how
	s.mx.Unlock()
}
func (s *trServer) pull() []Msg {
	s.mx.Lock()
	defer s.mx.Unlock()
	m := s.msgs
	s.msgs = nil
	return m
}

// take is what the client sends. It returns true when the handshake is complete now.
func (s *trServer) take(p []byte) (shook bool) {
	s.mx.Lock()
	defer s.mx.Unlock()
	s.buf = append(s.buf, p...)
	if !s.hs1 {
		i := bytes.IndexByte(s.buf, 0x1e)
		if i < 0 {
			return false
		}
		s.buf = s.buf[i+1:]
		s.hs1, shook = true, true
	}
	frames, rest := splitFrames(s.c.proto, s.buf)
	for _, f := range frames {
		m, err := decode(s.c.proto, f)
		if err != nil {
			m.Type = 99
		}
		s.msgs = append(s.msgs, m)
		if m.Type == 1 && m.ID != "" {
			p := encode(s.c.proto, Msg{Type: 3, ID: m.ID})
			go s.down("plain", 1, func(int) []byte { return p })
		}
	}
	s.buf = append([]byte{}, rest...)
	return shook
}

func (s *trServer) serve(w http.ResponseWriter, req *http.Request) {
	switch {
	case strings.HasSuffix(req.URL.Path, "/negotiate"):
		name := map[string]string{"ws": "WebSockets", "sse": "ServerSentEvents"}[s.c.tr]
		_, _ = io.WriteString(w, `{"connectionId":"other","negotiateVersion":0,"availableTransports":[{"transport":"`+name+`","transferFormats":["Text","Binary"]}]}`)
	case req.Method == "POST":
		p, err := io.ReadAll(req.Body)
		s.mx.Lock()
		how := s.failN
		s.failN = ""
		s.mx.Unlock()
		switch {
		case err != nil || how == "cut":
			if h, ok := w.(http.Hijacker); ok {
				if c, _, err := h.Hijack(); err == nil {
					_ = c.Close()
				}
			}
		case how != "":
			w.WriteHeader(http.StatusInternalServerError)
		default:
			if s.take(p) {
				go s.down("plain", 1, func(int) []byte { return []byte("{}\x1e") })
			}
		}
	case s.c.tr == "sse":
		w.Header().Set("Content-Type", "text/event-stream")
		w.WriteHeader(http.StatusOK)
		s.mx.Lock()
		s.w = w
		s.mx.Unlock()
		s.writing <- struct{}{}
		s.write([]byte(": hello\r\n\r\n"))
		<-s.writing
		select {
		case <-req.Context().Done():
		case <-s.closed:
		}
		s.mx.Lock()
		s.w = nil
		s.mx.Unlock()
		s.goneNow()
	default:
		ws, err := websocket.Accept(w, req, nil)
		if err != nil {
			s.goneNow()
			return
		}
		ws.SetReadLimit(-1)
		s.mx.Lock()
		s.ws = ws
		s.mx.Unlock()
		for {
			_, p, err := ws.Read(s.ctx)
			if err != nil {
				s.goneNow()
				return
			}
			if s.take(p) {
				_ = ws.Write(s.ctx, s.wsType(), []byte("{}\x1e"))
			}
		}
	}
}

func (s *trServer) wsType() websocket.MessageType {
	if s.c.proto == "messagepack" {
		return websocket.MessageBinary
	}
	return websocket.MessageText
}

func (s *trServer) write(p []byte) {
	s.mx.Lock()
	w := s.w
	s.mx.Unlock()
	if w == nil {
		return
	}
	_, _ = w.Write(p)
	w.(http.Flusher).Flush()
}

// down writes messages when nobody else is writing
func (s *trServer) down(form string, n int, frame func(i int) []byte) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		s.writing <- struct{}{}
		defer func() { <-s.writing }()
		s.send(form, n, frame)
	}()
	select {
	case <-done:
	case <-time.After(3 * sendTimeout):
		s.c.w.odd.add("the client does not read")
	}
}

func (s *trServer) send(form string, n int, frame func(i int) []byte) {
	var fs [][]byte
	for i := 1; i <= n; i++ {
		fs = append(fs, frame(i))
	}
	if form == "join" && len(bytes.Join(fs, nil)) <= s.c.w.max {
		fs = [][]byte{bytes.Join(fs, nil)}
	}
	if s.c.tr == "ws" {
		ctx, cancel := context.WithTimeout(s.ctx, sendTimeout)
		defer cancel()
		for _, f := range fs {
			switch form {
			case "halves":
				k := 1 + rand.IntN(len(f)-1)
				_ = s.ws.Write(ctx, s.wsType(), f[:k])
				_ = s.ws.Write(ctx, s.wsType(), f[k:])
			case "frames":
				if w, err := s.ws.Writer(ctx, s.wsType()); err == nil {
					_, _ = w.Write(f[:1])
					_, _ = w.Write(f[1 : len(f)/2])
					_, _ = w.Write(f[len(f)/2:])
					_ = w.Close()
				}
			default:
				_ = s.ws.Write(ctx, s.wsType(), f)
			}
		}
		return
	}
	for _, f := range fs {
		t := string(f)
		switch form {
		case "crlf":
			s.write([]byte("data: " + t + "\r\n\r\n"))
		case "lines":
			s.write([]byte("data: {\ndata: " + t[1:len(t)-2] + "\ndata: }\x1e\n\n"))
		case "fields":
			s.write([]byte(": data: no\nid: 7\ndata: " + t + "\nevent: message\nretry: 10\n\n: \n"))
		case "halves":
			k := len(t) / 2
			for t[k-1] == ' ' || t[k] == ' ' || t[k] >= 0x80 {
				k++
			}
			s.write([]byte("data: " + t[:k] + "\n\n"))
			s.write([]byte("data: " + t[k:] + "\n\n"))
		case "nospace":
			s.write([]byte("data:" + t + "\n\n"))
		default:
			s.write([]byte("data: " + t + "\n\n"))
		}
	}
}

// end ends the stream
func (s *trServer) end() {
	if s.c.tr == "sse" {
		close(s.closed)
	} else {
		_ = s.ws.Close(websocket.StatusNormalClosure, "")
	}
}

func (s *trServer) shut() {
	_ = s.hs.Close()
	s.net.shut()
}
