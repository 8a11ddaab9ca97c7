package harness

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
	"weak"

	"github.com/philippseith/signalr"
)

func init() { drivers["hub"] = hubDriver }

const (
	hubTimeout   = 60 * time.Second
	hubKeepAlive = 20 * time.Second
	hubHandshake = 3000 * time.Second
)

type hubKey struct{}

// hubPeer is one connection and the peer on its other end.
type hubPeer struct {
	k       int
	id      string
	cb      string
	proto   string
	conn    *memConn
	weak    weak.Pointer[memConn]
	done    chan struct{}
	stalled bool
	half    bool // the handshake request is not complete
	gone    bool // the peer ended it
	gated   int  // invocations of it which are blocked
	seenHs  bool

	hs, rec, con, dis, bad []string
	insts                  map[int]bool
	gcDone                 bool
	mob                    []string // messages of a mob
}

func (p *hubPeer) ended() bool {
	if p.done == nil {
		return true
	}
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// hubWorld is what the hubs share with the driver.
type hubWorld struct {
	mx    sync.Mutex
	peers map[int]*hubPeer
	gates map[int]chan struct{}
	block chan struct{} // closed at the end
	made  int
	group string
	odd   []string
}

// theHubWorld is used by the hubs made by SimpleHubFactory, which have no state
var theHubWorld *hubWorld

type worldHub struct {
	signalr.Hub
	num int
}

func (h *worldHub) me() (*hubWorld, *hubPeer) {
	w := theHubWorld
	k, _ := h.Context().Value(hubKey{}).(int)
	w.mx.Lock()
	defer w.mx.Unlock()
	p := w.peers[k]
	if p == nil {
		w.odd = append(w.odd, fmt.Sprintf("callback for unknown connection %d", k))
		p = &hubPeer{insts: map[int]bool{}}
	}
	if h.num > 0 {
		p.insts[h.num] = true
	}
	return w, p
}

func (h *worldHub) event(id string) (w *hubWorld, p *hubPeer, ev string) {
	w, p = h.me()
	if id == p.id && h.ConnectionID() == p.id {
		return w, p, "ok"
	}
	return w, p, "id:" + id + "," + h.ConnectionID()
}

func (h *worldHub) OnConnected(id string) {
	w, p, ev := h.event(id)
	w.mx.Lock()
	p.con = append(p.con, ev)
	w.mx.Unlock()
	switch p.cb {
	case "block":
		<-w.block
	case "talk":
		h.Groups().AddToGroup(w.group, id)
		h.Clients().All().Send("msg", fmt.Sprintf("h%d", p.k))
	}
}

func (h *worldHub) OnDisconnected(id string) {
	w, p, ev := h.event(id)
	w.mx.Lock()
	p.dis = append(p.dis, ev)
	w.mx.Unlock()
	switch p.cb {
	case "block":
		<-w.block
	case "talk":
		h.Groups().AddToGroup(w.group, id)
		h.Clients().All().Send("msg", fmt.Sprintf("b%d", p.k))
	}
}

// Do is the method the peers call.
func (h *worldHub) Do(i int, op, x string, gated bool) string {
	w, p := h.me()
	if gated {
		w.mx.Lock()
		g := w.gates[i]
		p.gated++
		w.mx.Unlock()
		<-g
		defer func() {
			w.mx.Lock()
			p.gated--
			w.mx.Unlock()
		}()
	}
	msg := fmt.Sprintf("n%d", i)
	switch op {
	case "all":
		h.Clients().All().Send("msg", msg)
	case "caller":
		h.Clients().Caller().Send("msg", msg)
	case "client":
		h.Clients().Client(x).Send("msg", msg)
	case "group":
		h.Clients().Group(x).Send("msg", msg)
	case "join":
		h.Groups().AddToGroup(x, h.ConnectionID())
	case "leave":
		h.Groups().RemoveFromGroup(x, h.ConnectionID())
	case "add":
		h.Groups().AddToGroup(w.group, x)
	case "del":
		h.Groups().RemoveFromGroup(w.group, x)
	case "set":
		h.Items().Store("item", i)
	case "get":
		v, ok := h.Items().Load("item")
		if !ok {
			return "0"
		}
		return fmt.Sprint(v)
	case "abort":
		h.Abort()
	case "panic":
		panic("boom")
	}
	return "done"
}

func hubObsMsg(p *hubPeer, m Msg) {
	bad := func() { p.bad = append(p.bad, fmt.Sprintf("%d:%s:%s:%s", m.Type, m.ID, m.Target, m.Error)) }
	switch m.Type {
	case 1:
		if !m.HasID && m.Target == "mob" {
			p.mob = append(p.mob, fmt.Sprint(m.Args...))
			return
		}
		if m.HasID || m.Target != "msg" || len(m.Args) != 1 {
			bad()
			return
		}
		s, ok := m.Args[0].(string)
		if !ok {
			bad()
			return
		}
		p.rec = append(p.rec, s)
	case 3:
		if m.Error != "" {
			p.rec = append(p.rec, m.ID+":err")
		} else {
			p.rec = append(p.rec, fmt.Sprintf("%s:%v", m.ID, m.Result))
		}
	case 6, 7:
	default:
		bad()
	}
}

// pull takes what was written to p.
func (p *hubPeer) pull() {
	if p.conn == nil {
		return
	}
	w := p.conn.TakeWrites()
	if len(w) > 0 && !p.seenHs {
		p.seenHs = true
		switch s := string(w[0]); {
		case s == "{}\x1e":
			p.hs = append(p.hs, "ok")
		case strings.HasPrefix(s, "{\"error\":") && strings.HasSuffix(s, "}\x1e"):
			p.hs = append(p.hs, "err")
		default:
			p.hs = append(p.hs, "bad:"+s)
		}
		w = w[1:]
	}
	ms, torn := decodeWrites(p.proto, w)
	if torn {
		p.bad = append(p.bad, "torn")
	}
	for _, m := range ms {
		hubObsMsg(p, m)
	}
}

type hubObsConn struct {
	St   string   `json:"st"`
	Hs   []string `json:"hs"`
	Rec  []string `json:"rec"`
	Con  []string `json:"con"`
	Dis  []string `json:"dis"`
	Bad  []string `json:"bad"`
	Inst int      `json:"inst"`
}

type hubObs struct {
	Conns  []hubObsConn `json:"conns"`
	Made   int          `json:"made"`
	Shared int          `json:"shared"`
	Leaked []string     `json:"leaked"`
	Odd    []string     `json:"odd"`
}

// hubNames are the names which are used for the ids and groups of the specification
var hubNames = []map[string]string{
	{"a": "a", "b": "b", "c": "c", "g": "g", "h": "h"},
	{"a": "id", "b": "Id", "c": "id ", "g": "room", "h": "Room"},
	{"a": "1", "b": "01", "c": "1*", "g": "", "h": "*"},
}

func hubDriver(r *Run) {
	n := r.Cfg.I("nconns")
	mode := r.Cfg.S("mode")
	names := hubNames[r.Cfg.I("names")]
	w := &hubWorld{peers: map[int]*hubPeer{}, gates: map[int]chan struct{}{}, block: make(chan struct{}), group: hubNames[r.Cfg.I("names")][r.Cfg.S("group")], odd: []string{}}
	theHubWorld = w
	for i := 1; i <= r.Cfg.I("ninv"); i++ {
		w.gates[i] = make(chan struct{})
	}
	protos := []string{"json", "messagepack"}
	for k := 1; k <= n; k++ {
		w.peers[k] = &hubPeer{k: k, proto: protos[(k+r.Cfg.I("flip"))%2], insts: map[int]bool{}, hs: []string{}, rec: []string{},
			con: []string{}, dis: []string{}, bad: []string{}}
	}
	ctx, cancel := context.WithCancel(context.Background())
	opts := append(quietOpts(), signalr.TimeoutInterval(hubTimeout), signalr.KeepAliveInterval(hubKeepAlive), signalr.HandshakeTimeout(hubHandshake))
	newHub := func() *worldHub {
		w.mx.Lock()
		defer w.mx.Unlock()
		w.made++
		return &worldHub{num: w.made}
	}
	switch mode {
	case "perconn":
		opts = append(opts, signalr.PerConnectionHubFactory(func(string) signalr.HubInterface { return newHub() }))
	case "simple":
		opts = append(opts, signalr.SimpleHubFactory(&worldHub{}))
	default:
		opts = append(opts, signalr.HubFactory(func() signalr.HubInterface { return &worldHub{} }))
	}
	srv, err := signalr.NewServer(ctx, opts...)
	if err != nil {
		panic(err)
	}
	released := map[int]bool{}
	ping := func(except int) {
		for _, p := range w.peers {
			if p.conn != nil && !p.ended() && !p.half && p.k != except {
				p.conn.Feed(encode(p.proto, Msg{Type: 6}))
			}
		}
	}
	// advance lets d pass while everybody but one connection shows that it is alive
	advance := func(d time.Duration, except int) {
		ping(except)
		for d > 0 {
			r.Advance(min(d, 15*time.Second))
			d -= 15 * time.Second
			ping(except)
			r.Settle()
		}
	}
	connect := func(p *hubPeer, id, how, cb string) {
		p.id, p.cb = id, cb
		p.conn = newMemConn(context.WithValue(context.Background(), hubKey{}, p.k), id)
		p.weak = weak.Make(p.conn)
		p.done = make(chan struct{})
		conn, done := p.conn, p.done
		req := handshakeReq(p.proto)
		switch how {
		case "ok":
			conn.Feed(req)
		case "stall":
			conn.Stall()
			p.stalled = true
			conn.Feed(req)
		case "half":
			p.half = true
			conn.Feed(req[:7])
		case "badproto":
			conn.Feed([]byte("{\"protocol\":\"nosuch\",\"version\":1}\x1e"))
		case "malformed":
			conn.Feed([]byte("{\"protocol\x1e"))
		case "eof":
			conn.Feed(req[:9])
			conn.Drop(io.EOF)
		}
		go func() {
			_ = srv.Serve(conn)
			close(done)
		}()
	}
	endConn := func(p *hubPeer, how string) {
		switch how {
		case "drop":
			p.conn.Drop(io.EOF)
		case "err":
			p.conn.Drop(errors.New("network down"))
		case "bye":
			p.conn.Feed(encode(p.proto, Msg{Type: 7}))
		case "byeerr":
			p.conn.Feed(encode(p.proto, Msg{Type: 7, Error: "no more", Allow: true}))
		case "junk":
			if p.proto == "json" {
				p.conn.Feed([]byte("{]\x1e"))
			} else {
				p.conn.Feed([]byte{2, 0xc1, 0xc1})
			}
		case "unexp":
			p.conn.Feed(encode(p.proto, Msg{Type: 3, ID: "nosuchcall"}))
		}
	}
	var do func(a Act)
	do = func(a Act) {
		p := w.peers[a.I("k")]
		switch a.S("a") {
		case "connect":
			connect(p, names[a.S("id")], a.S("how"), a.S("cb"))
		case "finish":
			if p.half {
				p.half = false
				p.conn.Feed(handshakeReq(p.proto)[7:])
			}
		case "stall":
			p.conn.Stall()
			p.stalled = true
		case "unstall":
			p.stalled = false
			p.conn.Unstall()
		case "end":
			if a.S("how") != "timeout" {
				endConn(p, a.S("how"))
			}
		case "shutdown":
			cancel()
		case "send":
			c, m := srv.HubClients(), fmt.Sprintf("m%d", a.I("n"))
			switch a.S("to") {
			case "all":
				c.All().Send("msg", m)
			case "client":
				c.Client(names[a.S("x")]).Send("msg", m)
			case "group":
				c.Group(names[a.S("x")]).Send("msg", m)
			}
		case "inv":
			p.conn.Feed(encode(p.proto, Msg{Type: 1, ID: fmt.Sprintf("i%d", a.I("i")), Target: "do",
				Args: []any{a.I("i"), a.S("op"), names[a.S("x")], a.B("gated")}}))
		case "rel":
			w.mx.Lock()
			if !released[a.I("i")] {
				released[a.I("i")] = true
				close(w.gates[a.I("i")])
			}
			w.mx.Unlock()
		}
	}
	leaked := []string{}
	for _, a := range r.Acts {
		switch a.S("a") {
		case "par":
			acts := a.L("acts")
			var start, all sync.WaitGroup
			start.Add(1)
			for _, x := range acts {
				x := Act(x.(map[string]any))
				all.Add(1)
				go func() {
					defer all.Done()
					start.Wait()
					jitter()
					do(x)
				}()
			}
			r.Settle()
			start.Done()
			all.Wait()
		case "hstimeout":
			advance(hubHandshake+time.Second, 0)
		case "gc":
			for _, p := range w.peers {
				if p.conn != nil && p.ended() && p.gated == 0 && p.cb != "block" && !p.stalled {
					p.conn.Close()
					p.conn = nil
					p.gcDone = true
				}
			}
			r.Settle()
			runtime.GC()
			runtime.GC()
			for k := 1; k <= n; k++ {
				if w.peers[k].gcDone && w.peers[k].weak.Value() != nil {
					leaked = append(leaked, fmt.Sprint(k))
				}
			}
		case "churn":
			hubChurn(r, w, srv, mode)
		case "mob":
			hubMob(r, w, srv, mode)
		default:
			done := make(chan struct{})
			go func() {
				do(a)
				close(done)
			}()
			r.Settle()
			select {
			case <-done:
			default:
				w.mx.Lock()
				w.odd = append(w.odd, "does not return: "+a.S("a"))
				w.mx.Unlock()
			}
		}
		r.Settle()
		if a.S("a") == "end" && a.S("how") == "timeout" {
			advance(hubTimeout+time.Second, a.I("k"))
		}
		for _, p := range w.peers {
			if p.conn != nil && p.stalled && !p.ended() {
				// what ends might have to wait until a close message times out
				advance(7*time.Second, 0)
				break
			}
		}
		obs := hubObs{Leaked: leaked, Conns: []hubObsConn{}}
		w.mx.Lock()
		if mode == "perconn" {
			obs.Made = w.made
		}
		users := map[int]int{}
		for k := 1; k <= n; k++ {
			p := w.peers[k]
			p.pull()
			st := "none"
			if p.done != nil {
				st = "serving"
				if p.ended() {
					st = "ended"
				}
			}
			sort.Strings(p.rec)
			obs.Conns = append(obs.Conns, hubObsConn{St: st, Hs: p.hs, Rec: p.rec, Con: p.con, Dis: p.dis, Bad: p.bad, Inst: len(p.insts)})
			for i := range p.insts {
				users[i]++
			}
		}
		for _, u := range users {
			if u > 1 {
				obs.Shared++
			}
		}
		obs.Odd = w.odd
		r.Rec(a, obs)
		w.mx.Unlock()
	}
	close(w.block)
	for i, g := range w.gates {
		if !released[i] {
			close(g)
		}
	}
	for _, p := range w.peers {
		if p.conn != nil {
			p.conn.Drop(io.EOF)
		}
	}
	cancel()
	r.Settle()
	for _, p := range w.peers {
		if p.conn != nil {
			p.conn.Close()
		}
	}
}

// hubChurn lets many connections come and go while others send. What is wrong with them is noted in w.odd.
func hubChurn(r *Run, w *hubWorld, srv signalr.Server, mode string) {
	const crowd = 12
	odd := func(f string, a ...any) {
		w.mx.Lock()
		w.odd = append(w.odd, fmt.Sprintf(f, a...))
		w.mx.Unlock()
	}
	w.mx.Lock()
	base := w.made
	made := base
	w.mx.Unlock()
	var peers []*hubPeer
	var all sync.WaitGroup
	for j := 0; j < crowd; j++ {
		k := 1000 + j
		p := &hubPeer{k: k, id: fmt.Sprintf("churn%d", j), proto: "json", insts: map[int]bool{}, done: make(chan struct{})}
		p.conn = newMemConn(context.WithValue(context.Background(), hubKey{}, k), p.id)
		p.weak = weak.Make(p.conn)
		peers = append(peers, p)
		w.mx.Lock()
		w.peers[k] = p
		w.mx.Unlock()
	}
	for j, p := range peers {
		conn, done := p.conn, p.done
		go func() {
			_ = srv.Serve(conn)
			close(done)
		}()
		all.Add(2)
		go func() {
			defer all.Done()
			conn.Feed(handshakeReq("json"))
			for i := 0; i < 4; i++ {
				// different groups come and go
				g := fmt.Sprintf("churn%d", (i+j)%3)
				conn.Feed(encode("json", Msg{Type: 1, ID: fmt.Sprintf("j%d", i), Target: "do", Args: []any{0, "join", g, false}}))
				if i%2 == 1 {
					runtime.Gosched()
					conn.Feed(encode("json", Msg{Type: 1, ID: fmt.Sprintf("l%d", i), Target: "do", Args: []any{0, "leave", g, false}}))
				}
			}
			for x := 0; x < j*20; x++ {
				runtime.Gosched()
			}
			if j%2 == 0 {
				conn.Feed(encode("json", Msg{Type: 7}))
			} else {
				conn.Drop(io.EOF)
			}
		}()
		go func() {
			defer all.Done()
			for i := 0; i < 3; i++ {
				srv.HubClients().Group(fmt.Sprintf("churn%d", i)).Send("msg", fmt.Sprintf("c%d.%d", j, i))
				runtime.Gosched()
			}
		}()
	}
	all.Wait()
	r.Settle()
	for _, p := range peers {
		if !p.ended() {
			odd("%s is still served", p.id)
			continue
		}
		p.pull()
		seen := map[string]bool{}
		for _, m := range p.rec {
			if seen[m] {
				odd("%s got %s twice", p.id, m)
			}
			seen[m] = true
		}
		if len(p.bad) > 0 {
			odd("%s got %v", p.id, p.bad)
		}
		p.rec = nil
		w.mx.Lock()
		con, dis, insts := len(p.con), len(p.dis), len(p.insts)
		w.mx.Unlock()
		if con != dis || con > 1 || (con == 1 && (p.con[0] != "ok" || p.dis[0] != "ok")) {
			odd("%s had callbacks %v %v", p.id, p.con, p.dis)
		}
		if mode == "perconn" && insts != con {
			odd("%s has seen %d hubs", p.id, insts)
		}
		made += con
	}
	w.mx.Lock()
	if mode == "perconn" && w.made != made {
		w.odd = append(w.odd, fmt.Sprintf("%d hubs were made", w.made))
	}
	w.made = base
	for _, p := range peers {
		delete(w.peers, p.k)
	}
	w.mx.Unlock()
	// nobody is in the groups anymore
	for i := 0; i < 3; i++ {
		srv.HubClients().Group(fmt.Sprintf("churn%d", i)).Send("msg", "late")
	}
	for _, p := range peers {
		srv.HubClients().Client(p.id).Send("msg", "late")
	}
	r.Settle()
	for _, p := range peers {
		p.pull()
		if len(p.rec) > 0 {
			odd("%s got %v after its end", p.id, p.rec)
		}
		p.conn.Close()
		p.conn = nil
	}
	r.Settle()
	runtime.GC()
	runtime.GC()
	for _, p := range peers {
		if p.ended() && p.weak.Value() != nil {
			odd("%s is still in memory", p.id)
		}
	}
}

// hubMob lets a lot of connections do the same: half of them do not read, and methods of all of them are blocked.
func hubMob(r *Run, w *hubWorld, srv signalr.Server, mode string) {
	const crowd = 80
	odd := func(f string, a ...any) {
		w.mx.Lock()
		w.odd = append(w.odd, fmt.Sprintf(f, a...))
		w.mx.Unlock()
	}
	w.mx.Lock()
	base := w.made
	gate := make(chan struct{})
	w.gates[0] = gate
	w.mx.Unlock()
	var peers []*hubPeer
	invoke := func(p *hubPeer, id, op, x string, gated bool) {
		p.conn.Feed(encode(p.proto, Msg{Type: 1, ID: id, Target: "do", Args: []any{0, op, x, gated}}))
	}
	join := func(j int) *hubPeer {
		k := 2000 + j
		p := &hubPeer{k: k, id: fmt.Sprintf("mob%d", j), proto: []string{"json", "messagepack"}[j/2%2], insts: map[int]bool{}, done: make(chan struct{})}
		p.conn = newMemConn(context.WithValue(context.Background(), hubKey{}, k), p.id)
		peers = append(peers, p)
		w.mx.Lock()
		w.peers[k] = p
		w.mx.Unlock()
		conn, done := p.conn, p.done
		go func() {
			_ = srv.Serve(conn)
			close(done)
		}()
		conn.Feed(handshakeReq(p.proto))
		return p
	}
	for j := 0; j < crowd; j++ {
		join(j)
	}
	r.Settle()
	for j, p := range peers {
		invoke(p, "j", "join", "mobs", false)
		if j%4 < 2 {
			invoke(p, "k", "join", "mobs2", false)
		}
	}
	r.Settle()
	for j, p := range peers {
		if j%3 == 0 {
			invoke(p, "l", "leave", "mobs", false)
		}
	}
	r.Settle()
	// what a peer has to receive
	want := map[*hubPeer][]string{}
	send := func(c signalr.ClientProxy, s string, to func(j int) bool) {
		for j, p := range peers {
			if to(j) {
				want[p] = append(want[p], s)
			}
		}
		sent := make(chan struct{})
		go func() {
			c.Send("mob", s)
			close(sent)
		}()
		if !r.Bubble {
			select {
			case <-sent:
			case <-time.After(5 * time.Second):
				odd("%s: Send does not return", s)
			}
			return
		}
		r.Settle()
		select {
		case <-sent:
		default:
			odd("%s: Send does not return", s)
		}
	}
	var old []*hubPeer // the connections of the specification which have to hear what is sent to all
	for _, p := range w.peers {
		p.pull()
		p.mob = nil
		if p.k < 1000 && len(p.con) == 1 && !p.ended() && !p.stalled && len(p.dis) == 0 {
			old = append(old, p)
		}
	}
	check := func(what string) {
		for j, p := range peers {
			if p.stalled {
				continue
			}
			p.pull()
			sort.Strings(p.mob)
			sort.Strings(want[p])
			if fmt.Sprint(p.mob) != fmt.Sprint(want[p]) || len(p.bad) > 0 {
				odd("%s: mob%d got %v %v, not %v", what, j, p.mob, p.bad, want[p])
			}
		}
	}
	for _, p := range peers {
		invoke(p, "b0", "", "", true)
		invoke(p, "b1", "", "", true)
	}
	r.Settle()
	for j, p := range peers {
		if j%2 == 1 {
			p.conn.Stall()
			p.stalled = true
		}
	}
	c := srv.HubClients()
	for i := 0; i < 3; i++ {
		send(c.Group("mobs"), fmt.Sprintf("group%d", i), func(j int) bool { return j%3 != 0 })
		send(c.Group("mobs2"), fmt.Sprintf("group2.%d", i), func(j int) bool { return j%4 < 2 })
		send(c.All(), fmt.Sprintf("all%d", i), func(int) bool { return true })
		for x := range peers {
			send(c.Client(fmt.Sprintf("mob%d", x)), fmt.Sprintf("client%d.%d", x, i), func(j int) bool { return j == x })
		}
	}
	r.Settle()
	check("sends")
	for _, p := range old {
		p.pull()
		sort.Strings(p.mob)
		if g := fmt.Sprint(p.mob); g != "[all0 all1 all2]" {
			odd("connection %d got %v", p.k, g)
		}
	}
	// a newcomer, and the members
	p := join(crowd)
	r.Settle()
	invoke(p, "j", "join", "mobs", false)
	for j, p := range peers {
		if j%2 == 0 {
			invoke(p, "g", "get", "", false)
		}
	}
	r.Settle()
	send(c.Group("mobs"), "last", func(j int) bool { return j == crowd || j%3 != 0 })
	r.Settle()
	check("newcomer")
	count := func(p *hubPeer, s string) (n int) {
		for _, m := range p.rec {
			if m == s {
				n++
			}
		}
		return n
	}
	for j, p := range peers {
		if j%2 == 0 && count(p, "g:0") != 1 {
			odd("mob%d was not answered: %v", j, p.rec)
		}
	}
	for j, p := range peers {
		if j%2 == 1 {
			p.stalled = false
			p.conn.Unstall()
		}
	}
	r.Settle()
	check("read again")
	w.mx.Lock()
	delete(w.gates, 0)
	w.mx.Unlock()
	close(gate)
	r.Settle()
	for j, p := range peers {
		p.pull()
		if j < crowd && (count(p, "b0:done") != 1 || count(p, "b1:done") != 1) {
			odd("mob%d was not answered: %v", j, p.rec)
		}
	}
	for j, p := range peers {
		if j%2 == 0 {
			p.conn.Feed(encode(p.proto, Msg{Type: 7}))
		} else {
			p.conn.Drop(io.EOF)
		}
	}
	r.Settle()
	for j, p := range peers {
		if !p.ended() || len(p.con) != 1 || len(p.dis) != 1 || p.con[0] != "ok" || p.dis[0] != "ok" {
			odd("mob%d: served %v, callbacks %v %v", j, !p.ended(), p.con, p.dis)
		}
		if mode == "perconn" && len(p.insts) != 1 {
			odd("mob%d has seen %d hubs", j, len(p.insts))
		}
	}
	w.mx.Lock()
	if mode == "perconn" && w.made != base+len(peers) {
		w.odd = append(w.odd, fmt.Sprintf("%d hubs were made", w.made))
	}
	w.made = base
	for _, p := range peers {
		delete(w.peers, p.k)
	}
	w.mx.Unlock()
	for _, p := range peers {
		p.conn.Close()
	}
}
