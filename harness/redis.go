package harness

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/philippseith/signalr"
	"github.com/philippseith/signalr/ext"
	"github.com/redis/go-redis/v9"
	"github.com/redis/go-redis/v9/maintnotifications"
)

func init() { drivers["redis"] = redisDriver }

// fakeRedis speaks as much of the Redis protocol as a lifetime manager might need.
type fakeRedis struct {
	mx    sync.Mutex
	sets  map[string]map[string]bool
	strs  map[string]string
	conns map[*fakeRedisConn]bool
	lag   time.Duration // until a subscription is in effect
	odd   *oddLog
	down  bool
}

type fakeRedisConn struct {
	r       *fakeRedis
	c       net.Conn
	wmx     sync.Mutex
	out     [][]byte
	wake    chan struct{}
	pats    []string
	multi   bool
	queued  [][]string
	closing chan struct{}
	once    sync.Once
}

func newFakeRedis(odd *oddLog) *fakeRedis {
	return &fakeRedis{sets: map[string]map[string]bool{}, strs: map[string]string{}, conns: map[*fakeRedisConn]bool{}, odd: odd}
}

func (f *fakeRedis) dial(context.Context, string, string) (net.Conn, error) {
	a, b := net.Pipe()
	c := &fakeRedisConn{r: f, c: b, wake: make(chan struct{}, 1), closing: make(chan struct{})}
	f.mx.Lock()
	if f.down {
		f.mx.Unlock()
		return nil, errors.New("connection refused")
	}
	f.conns[c] = true
	f.mx.Unlock()
	go c.write()
	go c.serve()
	return redisClientConn{a}, nil
}

// redisClientConn fails like a TCP connection, the client of Redis knows what to do then
type redisClientConn struct{ net.Conn }

func (c redisClientConn) Write(b []byte) (int, error) {
	n, err := c.Conn.Write(b)
	if errors.Is(err, io.ErrClosedPipe) {
		err = io.EOF
	}
	return n, err
}

// A deadline can be set as long as the own side is open
func (c redisClientConn) SetDeadline(t time.Time) error { _ = c.Conn.SetDeadline(t); return nil }
func (c redisClientConn) SetReadDeadline(t time.Time) error {
	_ = c.Conn.SetReadDeadline(t)
	return nil
}
func (c redisClientConn) SetWriteDeadline(t time.Time) error {
	_ = c.Conn.SetWriteDeadline(t)
	return nil
}

// cut ends all connections
func (f *fakeRedis) cut() {
	f.mx.Lock()
	conns := f.conns
	f.conns = map[*fakeRedisConn]bool{}
	f.mx.Unlock()
	for c := range conns {
		c.close()
	}
}

func (c *fakeRedisConn) close() {
	c.once.Do(func() { close(c.closing); _ = c.c.Close() })
}

func (c *fakeRedisConn) send(b string) {
	c.wmx.Lock()
	c.out = append(c.out, []byte(b))
	c.wmx.Unlock()
	select {
	case c.wake <- struct{}{}:
	default:
	}
}

func (c *fakeRedisConn) write() {
	for {
		c.wmx.Lock()
		out := c.out
		c.out = nil
		c.wmx.Unlock()
		for _, b := range out {
			if _, err := c.c.Write(b); err != nil {
				return
			}
		}
		select {
		case <-c.wake:
		case <-c.closing:
			return
		}
	}
}

func (c *fakeRedisConn) serve() {
	defer func() {
		c.close()
		c.r.mx.Lock()
		delete(c.r.conns, c)
		c.r.mx.Unlock()
	}()
	rd := bufio.NewReader(c.c)
	line := func() (string, error) {
		s, err := rd.ReadString('\n')
		return strings.TrimRight(s, "\r\n"), err
	}
	for {
		s, err := line()
		if err != nil || len(s) < 2 || s[0] != '*' {
			return
		}
		n, _ := strconv.Atoi(s[1:])
		cmd := make([]string, n)
		for i := range cmd {
			s, err := line()
			if err != nil {
				return
			}
			l, _ := strconv.Atoi(s[1:])
			b := make([]byte, l+2)
			if _, err := io.ReadFull(rd, b); err != nil {
				return
			}
			cmd[i] = string(b[:l])
		}
		if n > 0 {
			c.do(cmd)
		}
	}
}

func respInt(n int) string    { return fmt.Sprintf(":%d\r\n", n) }
func respStr(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }
func respList(ss []string) string {
	b := fmt.Sprintf("*%d\r\n", len(ss))
	for _, s := range ss {
		b += respStr(s)
	}
	return b
}

// globMatch knows the star only
func globMatch(p, s string) bool {
	if p == "" {
		return s == ""
	}
	if p[0] == '*' {
		for i := 0; i <= len(s); i++ {
			if globMatch(p[1:], s[i:]) {
				return true
			}
		}
		return false
	}
	return s != "" && s[0] == p[0] && globMatch(p[1:], s[1:])
}

func (c *fakeRedisConn) do(cmd []string) {
	name := strings.ToLower(cmd[0])
	switch name {
	case "multi":
		c.multi, c.queued = true, nil
		c.send("+OK\r\n")
		return
	case "exec":
		c.multi = false
		b := fmt.Sprintf("*%d\r\n", len(c.queued))
		c.r.mx.Lock()
		for _, q := range c.queued {
			b += c.r.exec(q)
		}
		c.r.mx.Unlock()
		c.send(b)
		return
	case "discard":
		c.multi = false
		c.send("+OK\r\n")
		return
	case "psubscribe", "subscribe":
		if c.r.lag > 0 {
			time.Sleep(c.r.lag)
		}
		for _, p := range cmd[1:] {
			c.r.mx.Lock()
			key := name[:1] + p
			found := false
			for _, q := range c.pats {
				found = found || q == key
			}
			if !found {
				c.pats = append(c.pats, key)
			}
			b := "*3\r\n" + respStr(name) + respStr(p) + respInt(len(c.pats))
			c.send(b)
			c.r.mx.Unlock()
		}
		return
	case "punsubscribe", "unsubscribe":
		c.r.mx.Lock()
		ps := cmd[1:]
		if len(ps) == 0 {
			for _, q := range c.pats {
				ps = append(ps, q[1:])
			}
		}
		for _, p := range ps {
			for i, q := range c.pats {
				if q[1:] == p {
					c.pats = append(c.pats[:i:i], c.pats[i+1:]...)
					break
				}
			}
			c.send("*3\r\n" + respStr(name) + respStr(p) + respInt(len(c.pats)))
		}
		c.r.mx.Unlock()
		return
	case "ping":
		c.r.mx.Lock()
		subscribed := len(c.pats) > 0
		c.r.mx.Unlock()
		if subscribed {
			c.send(respList([]string{"pong", ""}))
		} else {
			c.send("+PONG\r\n")
		}
		return
	case "quit":
		c.send("+OK\r\n")
		return
	}
	if c.multi {
		c.queued = append(c.queued, cmd)
		c.send("+QUEUED\r\n")
		return
	}
	c.r.mx.Lock()
	// in this order every connection sees it
	b := c.r.exec(cmd)
	c.send(b)
	c.r.mx.Unlock()
}

// exec runs with mx locked
func (f *fakeRedis) exec(cmd []string) string {
	arg := func(i int) string {
		if i < len(cmd) {
			return cmd[i]
		}
		return ""
	}
	set := f.sets[arg(1)]
	switch strings.ToLower(cmd[0]) {
	case "publish":
		n := 0
		for c := range f.conns {
			for _, p := range c.pats {
				if p[0] == 's' && p[1:] == arg(1) {
					c.send("*3\r\n" + respStr("message") + respStr(arg(1)) + respStr(arg(2)))
					n++
				} else if p[0] == 'p' && globMatch(p[1:], arg(1)) {
					c.send("*4\r\n" + respStr("pmessage") + respStr(p[1:]) + respStr(arg(1)) + respStr(arg(2)))
					n++
				}
			}
		}
		return respInt(n)
	case "sadd":
		if set == nil {
			set = map[string]bool{}
			f.sets[arg(1)] = set
		}
		n := 0
		for _, m := range cmd[2:] {
			if !set[m] {
				set[m] = true
				n++
			}
		}
		return respInt(n)
	case "srem":
		n := 0
		for _, m := range cmd[2:] {
			if set[m] {
				delete(set, m)
				n++
			}
		}
		if len(set) == 0 {
			delete(f.sets, arg(1))
		}
		return respInt(n)
	case "sismember":
		if set[arg(2)] {
			return respInt(1)
		}
		return respInt(0)
	case "smismember":
		b := fmt.Sprintf("*%d\r\n", len(cmd)-2)
		for _, m := range cmd[2:] {
			if set[m] {
				b += respInt(1)
			} else {
				b += respInt(0)
			}
		}
		return b
	case "smembers":
		ms := []string{}
		for m := range set {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		return respList(ms)
	case "scard":
		return respInt(len(set))
	case "set":
		f.strs[arg(1)] = arg(2)
		return "+OK\r\n"
	case "get":
		if s, ok := f.strs[arg(1)]; ok {
			return respStr(s)
		}
		return "$-1\r\n"
	case "del", "unlink":
		n := 0
		for _, k := range cmd[1:] {
			if _, ok := f.sets[k]; ok {
				n++
			} else if _, ok := f.strs[k]; ok {
				n++
			}
			delete(f.sets, k)
			delete(f.strs, k)
		}
		return respInt(n)
	case "exists":
		n := 0
		for _, k := range cmd[1:] {
			if _, ok := f.sets[k]; ok {
				n++
			} else if _, ok := f.strs[k]; ok {
				n++
			}
		}
		return respInt(n)
	case "expire", "pexpire", "persist":
		return respInt(1)
	case "client", "auth", "select":
		return "+OK\r\n"
	case "hello":
		return "-ERR unknown command 'hello'\r\n"
	}
	f.odd.add("redis: " + strings.Join(cmd, " "))
	return "-ERR unknown command\r\n"
}

// stale are the members of groups which are not connected
func (f *fakeRedis) stale(on map[string]bool) []string {
	f.mx.Lock()
	defer f.mx.Unlock()
	l := []string{}
	for k, s := range f.sets {
		for m := range s {
			if !on[m] {
				l = append(l, k+":"+m)
			}
		}
	}
	sort.Strings(l)
	return l
}

type redisHub struct {
	signalr.Hub
	w *redisWorld
}

type redisWorld struct {
	names []string // of the groups
	ids   []string // of the connections, 0: nobody
}

// redisArgs are the arguments of every message
var redisArgs = []any{int64(7), int64(1<<53 + 1), -2.5, []any{int64(1), "x", nil}, map[string]any{"k": int64(1 << 60)}, true}

// Do is called by the peers
func (h *redisHub) Do(op string, g, x int, msg string) string {
	h.w.do(h.Clients(), h.Groups(), op, g, x, msg)
	return "done"
}

func (w *redisWorld) do(cs signalr.HubClients, gs signalr.GroupManager, op string, g, x int, msg string) {
	args := append([]any{msg}, redisArgs...)
	switch op {
	case "all":
		cs.All().Send("msg", args...)
	case "caller":
		cs.Caller().Send("msg", args...)
	case "client":
		cs.Client(w.ids[x]).Send("msg", args...)
	case "group":
		cs.Group(w.names[g]).Send("msg", args...)
	case "join":
		gs.AddToGroup(w.names[g], w.ids[x])
	case "leave":
		gs.RemoveFromGroup(w.names[g], w.ids[x])
	}
}

type redisPeer struct {
	*session
	on      bool
	stalled bool
	calls   int
	got     []string
}

type redisObs struct {
	Live  []string   `json:"live"`
	Got   [][]string `json:"got"`
	Stale []string   `json:"stale"`
	Odd   []string   `json:"odd"`
}

func redisDriver(r *Run) {
	odd := &oddLog{}
	f := newFakeRedis(odd)
	if r.Cfg.B("lag") {
		f.lag = time.Second
	}
	w := &redisWorld{ids: []string{[]string{"nobody", ""}[r.Cfg.I("nobody")]}}
	w.names = [][]string{{"g", "h"}, {"g", "G"}, {"", "*"}, {"all", "signalr:all"}, {"a b\r\n", "members:g"}}[r.Cfg.I("names")]
	n, ns := r.Cfg.I("nconns"), r.Cfg.I("nservers")
	protos := []string{"json", "messagepack"}
	peers := []*redisPeer{nil}
	for k := 1; k <= n; k++ {
		w.ids = append(w.ids, fmt.Sprintf("c%d", k))
		peers = append(peers, &redisPeer{})
	}
	srvs := []signalr.Server{nil}
	stops := []context.CancelFunc{nil}
	clients := []*redis.Client{}
	for i := 0; i < ns; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		rc := redis.NewClient(&redis.Options{Addr: "10.0.0.1:6379", MaintNotificationsConfig: &maintnotifications.Config{Mode: maintnotifications.ModeDisabled}, Dialer: f.dial, MaxRetries: 30, MinRetryBackoff: -1, MaxRetryBackoff: -1})
		srv, err := signalr.NewServer(ctx, append(longOpts(), signalr.HubFactory(func() signalr.HubInterface { return &redisHub{w: w} }),
			ext.WithRedisHubLifetimeManager(rc, nolog{}))...)
		if err != nil {
			panic(err)
		}
		srvs, stops, clients = append(srvs, srv), append(stops, cancel), append(clients, rc)
	}
	if !r.Cfg.B("lag") || !r.Bubble {
		r.Advance(100 * time.Millisecond)
	}
	pull := func(k int) {
		p := peers[k]
		if p.session == nil || p.stalled {
			return
		}
		for _, m := range p.pull() {
			switch {
			case m.Type == 1 && m.Target == "msg" && len(m.Args) == 1+len(redisArgs):
				if m.HasID && m.ID != "" {
					// This is how a client answers
					p.send(Msg{Type: 3, ID: m.ID})
				}
				s, _ := m.Args[0].(string)
				if got, want := fmt.Sprint(m.Args[1:]), fmt.Sprint(redisArgs); got != want {
					s += " " + got
				}
				p.got = append(p.got, s)
			case m.Type == 3 && m.Error == "" || m.Type == 6 || m.Type == 7:
			default:
				odd.add(fmt.Sprint(k, " received ", m.Type, m.Target, m.Error))
			}
		}
		if p.torn {
			odd.add("torn")
			p.torn = false
		}
	}
	settle := func() {
		for i := 0; i < 3; i++ {
			r.Settle()
			for k := 1; k <= n; k++ {
				pull(k)
			}
			if !r.Bubble && i == 1 {
				break
			}
		}
	}
	end := func(k int, how string) {
		p := peers[k]
		if p.session == nil {
			return
		}
		switch how {
		case "bye":
			p.send(Msg{Type: 7})
		default:
			p.conn.Drop(io.EOF)
		}
	}
	op := func(o Act, msg string) {
		if by := o.I("by"); by > 0 {
			p := peers[by]
			if p.session == nil {
				return // the observations of the last step tell that it is not connected any more
			}
			p.calls++
			p.send(Msg{Type: 1, ID: fmt.Sprint(p.calls), HasID: true, Target: "Do", Args: []any{o.S("op"), o.I("g") - 1, o.I("x"), msg}})
		} else {
			go w.do(srvs[o.I("sv")].HubClients(), nil, o.S("op"), o.I("g")-1, o.I("x"), msg)
		}
	}
	for i, act := range r.Acts {
		k := act.I("k")
		o, _ := act["o"].(map[string]any)
		q, _ := act["q"].(map[string]any)
		msg := fmt.Sprintf("n%d", i+1)
		switch act.S("a") {
		case "con":
			conn := newMemConn(context.Background(), w.ids[k])
			peers[k].session = startServe(r, srvs[act.I("s")], conn, protos[(k+i)%2])
			peers[k].handshake(r)
			peers[k].on, peers[k].stalled, peers[k].got = true, false, nil
		case "dis":
			end(k, act.S("how"))
		case "do":
			op(o, msg+"a")
		case "two":
			op(o, msg+"a")
			jitter()
			op(q, msg+"b")
		case "end":
			if act.B("late") {
				op(o, msg+"a")
				jitter()
				end(k, "drop")
			} else {
				end(k, "drop")
				jitter()
				op(o, msg+"a")
			}
		case "stall":
			if peers[k].session == nil {
				break
			}
			peers[k].conn.Stall()
			peers[k].stalled = true
		case "cut":
			f.cut()
			r.Advance(10 * time.Second)
		case "stop":
			stops[act.I("s")]()
			if r.Bubble {
				r.Advance(20 * time.Second) // a peer which does not read may delay it
			}
		}
		if act.S("a") == "dis" && peers[k].stalled {
			r.Advance(20 * time.Second)
		}
		settle()
		obs := redisObs{Live: []string{}, Got: [][]string{}}
		on := map[string]bool{}
		for k := 1; k <= n; k++ {
			p := peers[k]
			if p.session != nil && p.ended() {
				p.on = false
				p.cleanup()
				p.session = nil
			}
			got := []string{}
			if p.on {
				on[w.ids[k]] = true
				sort.Strings(p.got)
				got = append(got, p.got...)
				obs.Live = append(obs.Live, "on")
			} else {
				obs.Live = append(obs.Live, "off")
			}
			obs.Got = append(obs.Got, got)
			p.got = nil
		}
		obs.Stale = f.stale(on)
		obs.Odd = odd.take()
		if obs.Odd == nil {
			obs.Odd = []string{}
		}
		r.Rec(act, obs)
	}
	for k := 1; k <= n; k++ {
		if peers[k].session != nil {
			peers[k].cleanup()
		}
	}
	for i := 1; i <= ns; i++ {
		stops[i]()
	}
	r.Settle()
	f.mx.Lock()
	f.down = true
	f.mx.Unlock()
	f.cut()
	for _, c := range clients {
		_ = c.Close()
	}
	r.Settle()
}
