package harness

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/philippseith/signalr"
)

func init() { drivers["negotiate"] = negotiateDriver }

const negTick = 40 * time.Second

type negHub struct {
	signalr.Hub
	g *negLog
}

type negLog struct {
	mx   sync.Mutex
	hubs map[string]int
}

func (h *negHub) OnConnected(id string)    { h.g.mx.Lock(); h.g.hubs[id]++; h.g.mx.Unlock() }
func (h *negHub) OnDisconnected(id string) { h.g.mx.Lock(); h.g.hubs[id]--; h.g.mx.Unlock() }
func (h *negHub) Who() string              { return h.ConnectionID() }
func (h *negHub) Leave()                   { h.Abort() }

// negID is an id of spec/Negotiate.tla
type negID struct {
	connID, token string
	key           string
	conn          *rawConn
	client        signalr.Client
	stop          context.CancelFunc
	ended         bool
	waiting       bool // a request waits for the connection
	calls         int
}

type negWorld struct {
	r    *Run
	net  *pipeNet
	hc   *http.Client
	ctx  context.Context
	odd  *oddLog
	ids  []*negID
	seen map[string]bool
	// what a negotiation has to offer
	transports string
	mx         sync.Mutex
	posts      []string
	dials      int
	ways       map[string]*goWay
}

func (w *negWorld) id(k int) *negID {
	if k < 1 || k > len(w.ids) {
		return nil
	}
	return w.ids[k-1]
}

// negotiate asks for an id
func (w *negWorld) negotiate(v string) *negID {
	u := hubURL + "/negotiate"
	if !strings.HasPrefix(v, "h") && v != "none" {
		u += "?negotiateVersion=" + v
	}
	ctx, cancel := context.WithTimeout(w.ctx, sendTimeout)
	defer cancel()
	req, _ := http.NewRequestWithContext(ctx, "POST", u, nil)
	if strings.HasPrefix(v, "h") {
		req.Header.Set("negotiateVersion", v[1:])
	}
	resp, err := w.hc.Do(req)
	if err != nil {
		w.odd.add("negotiate: " + err.Error())
		return nil
	}
	defer resp.Body.Close()
	if resp.StatusCode == http.StatusTooManyRequests {
		return nil
	}
	var a struct {
		ConnectionToken, ConnectionID string
		NegotiateVersion              int
		AvailableTransports           []struct {
			Transport       string
			TransferFormats []string
		}
	}
	if err := json.NewDecoder(resp.Body).Decode(&a); err != nil || resp.StatusCode != http.StatusOK {
		w.odd.add(fmt.Sprint("negotiate: ", resp.StatusCode, err))
		return nil
	}
	if s := fmt.Sprint(a.AvailableTransports); s != w.transports {
		w.odd.add("transports: " + s)
	}
	id := &negID{connID: a.ConnectionID, token: a.ConnectionToken, key: a.ConnectionID}
	if want1 := v == "1" || v == "h1"; want1 && (a.NegotiateVersion != 1 || a.ConnectionToken == "") ||
		(v == "0" || v == "h0" || v == "none") && (a.NegotiateVersion != 0 || a.ConnectionToken != "") {
		w.odd.add(fmt.Sprint("negotiate ", v, a))
	}
	if a.ConnectionToken != "" {
		id.key = a.ConnectionToken
	}
	w.unique(id.connID)
	if id.token != "" {
		w.unique(id.token)
	}
	return id
}

func (w *negWorld) unique(s string) {
	w.mx.Lock()
	defer w.mx.Unlock()
	if s == "" || w.seen[s] {
		w.odd.add("id used twice: " + s)
	}
	w.seen[s] = true
}

// connect returns nil when the server refuses
func (w *negWorld) connect(id *negID, key, tr string) *rawConn {
	var c *rawConn
	var err error
	if tr == "ws" {
		w.mx.Lock()
		w.dials++
		hc := w.hc
		if w.dials%2 == 0 {
			hc = &http.Client{Transport: browserTrip{w.hc.Transport}}
		}
		w.mx.Unlock()
		c, err = dialWS(w.ctx, hc, key)
	} else {
		c, err = dialSSE(w.ctx, w.hc, key, id == nil || !id.waiting)
	}
	if err != nil {
		return nil
	}
	if w.r.Bubble {
		time.Sleep(20 * time.Millisecond)
	} else {
		time.Sleep(150 * time.Millisecond)
	}
	if c.over() {
		return nil
	}
	return c
}

func (w *negWorld) post(k int, id *negID, key string, p []byte) {
	id.waiting = true
	go func() {
		code, err := post(w.ctx, w.hc, key, p)
		s := fmt.Sprint(k) + ":no"
		if err != nil {
			s = fmt.Sprint(k, ":", cut(err.Error()))
		} else if code == http.StatusOK {
			s = fmt.Sprint(k) + ":ok"
		} else if code < 400 || code >= 500 {
			s = fmt.Sprint(k, ":", code)
		}
		w.mx.Lock()
		w.posts = append(w.posts, s)
		id.waiting = false
		w.mx.Unlock()
	}()
}

func (id *negID) live() bool {
	return !id.ended && (id.client != nil || id.conn != nil)
}

// check calls a method over the connection of the id
func (w *negWorld) check(id *negID) string {
	if id.ended || id.conn == nil && id.client == nil {
		return ""
	}
	var who string
	if id.client != nil {
		select {
		case res := <-id.client.Invoke("Who"):
			if res.Error != nil {
				return cut(res.Error.Error())
			}
			who, _ = res.Value.(string)
		case <-time.After(netSettle):
			return "no answer"
		}
	} else {
		id.calls++
		inv := encode("json", Msg{Type: 1, ID: fmt.Sprint(id.calls), Target: "Who"})
		if err := id.conn.send(inv); err != nil {
			return cut(err.Error())
		}
		w.r.Advance(netSettle / 4)
		for _, m := range id.conn.pull() {
			if m.Type == 3 && m.ID == fmt.Sprint(id.calls) {
				who, _ = m.Result.(string)
			}
		}
	}
	if who == "" {
		return "no answer"
	}
	if id.connID == "" {
		id.connID = who
		w.unique(who)
	}
	if who != id.connID {
		return "is " + who
	}
	return "ok"
}

func negotiateDriver(r *Run) {
	ctx, cancel := context.WithCancel(context.Background())
	g := &negLog{hubs: map[string]int{}}
	opts := append(longOpts(), signalr.HandshakeTimeout(4*negTick+negTick/2), signalr.HubFactory(func() signalr.HubInterface { return &negHub{g: g} }))
	if n := r.Cfg.I("limit"); n >= 0 {
		opts = append(opts, signalr.MaxNegotiationConnections(n))
	}
	transports := map[string]string{"": "[{WebSockets [Text Binary]} {ServerSentEvents [Text]}]", "ws": "[{WebSockets [Text Binary]}]",
		"sse": "[{ServerSentEvents [Text]}]", "sse ws": "[{ServerSentEvents [Text]} {WebSockets [Text Binary]}]"}[r.Cfg.S("offer")]
	if r.Cfg.S("offer") != "" {
		var ts []signalr.TransportType
		for _, t := range strings.Split(r.Cfg.S("offer"), " ") {
			ts = append(ts, map[string]signalr.TransportType{"ws": signalr.TransportWebSockets, "sse": signalr.TransportServerSentEvents}[t])
		}
		opts = append(opts, signalr.HTTPTransports(ts...))
	}
	srv, err := signalr.NewServer(ctx, opts...)
	if err != nil {
		panic(err)
	}
	cctx, ccancel := context.WithCancel(context.Background())
	w := &negWorld{r: r, net: newPipeNet(), ctx: cctx, odd: &oddLog{}, seen: map[string]bool{}, ways: map[string]*goWay{}, transports: transports}
	w.hc = w.net.client()
	hs := startHTTP(srv, w.net, w.odd)
	start := time.Now()
	r.Advance(netSettle)
	yes := func(ok bool, s string) string {
		if ok {
			return s
		}
		return "no"
	}
	for _, act := range r.Acts {
		res := []string{}
		k := act.I("k")
		id := w.id(k)
		key := "unknown"
		if id != nil {
			key = id.key
			if act.S("key") == "foreign" {
				key = "x" + id.key
				if id.token != "" {
					key = id.connID
				}
			}
		}
		switch act.S("a") {
		case "neg":
			n := act.I("n")
			ids := make([]*negID, n)
			var wg sync.WaitGroup
			for i := range ids {
				wg.Add(1)
				go func() {
					defer wg.Done()
					ids[i] = w.negotiate(act.S("v"))
				}()
			}
			wg.Wait()
			for _, id := range ids {
				res = append(res, yes(id != nil, "new"))
				if id != nil {
					w.ids = append(w.ids, id)
				}
			}
			sort.Strings(res)
		case "go":
			gctx, gcancel := context.WithTimeout(w.ctx, sendTimeout)
			conn, err := w.goConnect(gctx, act.S("v"), act.S("tr"))
			gcancel()
			if err != nil {
				res = append(res, yes(!strings.Contains(err.Error(), "429"), "error "+cut(err.Error())))
				break
			}
			clctx, stop := context.WithCancel(w.ctx)
			cl, err := signalr.NewClient(clctx, append(longOpts(), signalr.HandshakeTimeout(farAway), signalr.WithConnection(conn))...)
			if err != nil {
				panic(err)
			}
			cl.Start()
			w.unique(conn.ConnectionID())
			w.ids = append(w.ids, &negID{connID: conn.ConnectionID(), key: conn.ConnectionID(), client: cl, stop: stop})
			res = append(res, "ok")
		case "direct":
			c := w.connect(nil, "", "ws")
			res = append(res, yes(c != nil, "ok"))
			if c != nil {
				w.ids = append(w.ids, &negID{conn: c, key: "nobody"})
			}
		case "conn":
			c := w.connect(id, key, act.S("tr"))
			res = append(res, yes(c != nil, "ok"))
			if c != nil && id != nil {
				if id.conn != nil {
					w.odd.add("second connection")
				}
				id.conn = c
			}
		case "race":
			cs := make([]*rawConn, 2)
			var wg sync.WaitGroup
			for i := range cs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					jitter()
					cs[i] = w.connect(id, key, act.S(fmt.Sprint("t", i+1)))
				}()
			}
			wg.Wait()
			for _, c := range cs {
				res = append(res, yes(c != nil, "ok"))
				if c != nil && id != nil {
					if id.conn != nil {
						w.odd.add("second connection")
					}
					id.conn = c
				}
			}
		case "post":
			if id == nil {
				id = &negID{}
			}
			if id.client == nil && (!id.waiting || key != id.key) {
				p := []byte("{\"type\":6}\x1e")
				if id.conn == nil && key == id.key {
					p = handshakeReq("json")
				}
				if key == id.key {
					w.post(k, id, key, p)
				} else {
					w.post(k, &negID{}, key, p)
				}
			}
		case "end":
			if id == nil || !id.live() {
				break
			}
			switch {
			case id.client != nil && act.S("how") != "abort":
				id.client.Stop()
			case id.client != nil:
				id.client.Send("Leave")
			case act.S("how") == "drop":
				id.conn.drop()
			case act.S("how") == "bye":
				_ = id.conn.send([]byte("{\"type\":7}\x1e"))
			default:
				_ = id.conn.send(encode("json", Msg{Type: 1, Target: "Leave"}))
			}
			r.Advance(netSettle)
			if id.client != nil {
				id.ended = id.client.State() == signalr.ClientClosed
			} else {
				id.ended = id.conn.over()
			}
		case "tick":
			n := time.Since(start)/negTick + 1
			r.Advance(time.Until(start.Add(n * negTick)))
		case "junk":
			res = append(res, w.junk(act.I("kind")))
		case "stop":
			cancel()
			r.Advance(netSettle)
			for _, id := range w.ids {
				if id.client != nil {
					id.ended = id.client.State() == signalr.ClientClosed
				} else if id.conn != nil {
					id.ended = id.conn.over()
				}
			}
		}
		r.Advance(netSettle)
		live := []string{}
		for _, id := range w.ids {
			live = append(live, w.check(id))
		}
		g.mx.Lock()
		hubs := []string{}
		for id, n := range g.hubs {
			if n == 1 {
				hubs = append(hubs, "hub")
			} else if n != 0 {
				hubs = append(hubs, fmt.Sprint(id, ":", n))
			}
		}
		sort.Strings(hubs)
		g.mx.Unlock()
		w.mx.Lock()
		posts := append([]string{}, w.posts...)
		w.posts = nil
		w.mx.Unlock()
		sort.Strings(posts)
		r.Rec(act, map[string]any{"res": res, "posts": posts, "live": live, "hubs": hubs, "odd": w.odd.take()})
	}
	ccancel()
	cancel()
	for _, id := range w.ids {
		if id.stop != nil {
			id.stop()
		}
		if id.conn != nil {
			id.conn.drop()
		}
	}
	_ = hs.Close()
	w.net.shut()
	if r.Bubble {
		r.Advance(5 * negTick)
	}
}

// browserTrip asks for websockets as some browsers and proxies do
type browserTrip struct{ http.RoundTripper }

func (t browserTrip) RoundTrip(req *http.Request) (*http.Response, error) {
	if req.Header.Get("Upgrade") != "" {
		req = req.Clone(req.Context())
		req.Header.Set("Connection", "keep-alive, Upgrade")
		req.Header.Set("Upgrade", "WebSocket")
	}
	return t.RoundTripper.RoundTrip(req)
}

// goTrip sees the requests of a Go client
type goTrip struct {
	http.RoundTripper
	odd     *oddLog
	mx      sync.Mutex
	fail    bool // the next negotiation fails
	ws, sse bool // asked for
	marked  bool // requests have to have the mark
}

func (t *goTrip) begin(fail bool) {
	t.mx.Lock()
	t.fail, t.ws, t.sse = fail, false, false
	t.mx.Unlock()
}

// used tells if the only transport asked for is tr
func (t *goTrip) used(tr string) bool {
	t.mx.Lock()
	defer t.mx.Unlock()
	return t.ws == (tr == "ws") && t.sse == (tr == "sse")
}

func (t *goTrip) RoundTrip(req *http.Request) (*http.Response, error) {
	t.mx.Lock()
	sse := req.Header.Get("Accept") == "text/event-stream"
	t.ws = t.ws || req.Header.Get("Upgrade") != ""
	t.sse = t.sse || sse
	fail := t.fail && strings.HasSuffix(req.URL.Path, "/negotiate")
	if fail {
		t.fail = false
	}
	if t.marked && (req.Header.Get("X-Mark") != "yes" || req.Method != "GET" && sse) {
		t.odd.add(fmt.Sprint("headers of ", req.Method, " ", len(req.Header)))
	}
	t.mx.Unlock()
	if fail {
		return nil, errors.New("no way")
	}
	return t.RoundTripper.RoundTrip(req)
}

// goWay is a way to make connections as a Go program does
type goWay struct {
	trip    *goTrip
	connect func(context.Context) (signalr.Connection, error)
}

func goConnector(n *pipeNet, odd *oddLog, v, tr string) *goWay {
	trip := &goTrip{RoundTripper: n.client().Transport, odd: odd, marked: v != "none"}
	hc := signalr.WithHTTPClient(&http.Client{Transport: trip})
	ws, sse := signalr.TransportWebSockets, signalr.TransportServerSentEvents
	t := ws
	if tr == "sse" {
		t = sse
	}
	headers := http.Header{"X-Mark": []string{"yes"}}
	own := signalr.WithHTTPHeaders(func() http.Header {
		if v == "fac" || v == "fall" {
			return headers
		}
		return headers.Clone()
	})
	opts := list(hc, signalr.WithTransports(t))
	factory := signalr.NewHTTPConnection
	switch v {
	case "none":
	case "fall":
		opts = list(signalr.WithTransports(ws, sse), own, hc)
		factory = signalr.HttpConnectionFactory
	case "fac":
		opts = list(own, signalr.WithTransports(t), hc, signalr.WithNegotiateVersion(0))
		factory = signalr.HttpConnectionFactory
	case "1":
		opts = append(opts, own, signalr.WithNegotiateVersion(1))
	default:
		opts = append(opts, own, signalr.WithNegotiateVersion(0))
	}
	return &goWay{trip, func(ctx context.Context) (signalr.Connection, error) {
		conn, err := factory(ctx, hubURL, opts...)
		if len(headers) != 1 || len(headers["X-Mark"]) != 1 {
			odd.add(fmt.Sprint("headers are now ", headers))
		}
		return conn, err
	}}
}

// goConnect makes a connection. The same way is used again and again.
func (w *negWorld) goConnect(ctx context.Context, v, tr string) (signalr.Connection, error) {
	key := v + " " + tr
	if v == "fall" {
		key = v
	}
	g := w.ways[key]
	if g == nil {
		g = goConnector(w.net, w.odd, v, tr)
		w.ways[key] = g
	}
	g.trip.begin(v == "fall" && tr == "sse")
	conn, err := g.connect(ctx)
	if err == nil && !g.trip.used(tr) {
		w.odd.add(fmt.Sprint("not with ", tr))
	}
	return conn, err
}

func list[T any](xs ...T) []T { return xs }

// junk sends a request which is not right
func (w *negWorld) junk(kind int) string {
	method, u, accept := "GET", hubURL, ""
	switch kind {
	case 0:
		u += "/negotiate"
	case 1:
		method, u = "PUT", u+"/negotiate"
	case 2:
		method = "POST"
	case 3:
		method, u = "POST", u+"?id=nobody"
	case 4:
		accept = "text/event-stream"
	case 5:
		u, accept = u+"?id=nobody", "text/event-stream"
	case 6:
		u += "?id=nobody"
	case 7:
		method = "DELETE"
	case 8:
		if c := w.connect(nil, "nobody", "ws"); c != nil {
			return "ok"
		}
		return "no"
	default:
		method, u = "PUT", u+"?id=nobody"
	}
	ctx, cancel := context.WithTimeout(w.ctx, sendTimeout)
	defer cancel()
	req, _ := http.NewRequestWithContext(ctx, method, u, bytes.NewReader(nil))
	if accept != "" {
		req.Header.Set("Accept", accept)
	}
	resp, err := w.hc.Do(req)
	if err != nil {
		return cut(err.Error())
	}
	_ = resp.Body.Close()
	if resp.StatusCode >= 400 && resp.StatusCode < 500 {
		return "no"
	}
	return fmt.Sprint(resp.StatusCode)
}
