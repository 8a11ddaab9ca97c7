package harness

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"sync"

	"github.com/philippseith/signalr"
)

func init() { drivers["callee"] = calleeDriver }

// calleeState is what the methods of calleeMethods share with the driver.
type calleeState struct {
	mx    sync.Mutex
	n     int
	log   [][3][]string
	gates []chan string
	chs   []chan string
	extra []string
}

func newCalleeState(n int) *calleeState {
	c := &calleeState{n: n, log: make([][3][]string, n+1), gates: make([]chan string, n+1), chs: make([]chan string, n+1)}
	for i := range c.log {
		c.log[i] = [3][]string{{}, {}, {}}
		c.gates[i] = make(chan string, 1)
		c.chs[i] = make(chan string, 100)
	}
	return c
}

func (c *calleeState) add(k, s int, ev string) {
	if k == 0 {
		return // one of a crowd
	}
	c.mx.Lock()
	defer c.mx.Unlock()
	if k < 1 || k > c.n {
		c.extra = append(c.extra, fmt.Sprintf("%d/%d/%s", k, s, ev))
		return
	}
	c.log[k][s-1] = append(c.log[k][s-1], ev)
}

// calleeMethods are the methods the peer calls. The first argument is the number of the call.
type calleeMethods struct{ d *calleeState }

func (m calleeMethods) Val(k int) string {
	m.d.add(k, 3, "call")
	return fmt.Sprintf("r%d", k)
}
func (m calleeMethods) Void(k int) { m.d.add(k, 3, "call") }
func (m calleeMethods) Two(k int) (string, int) {
	m.d.add(k, 3, "call")
	return fmt.Sprintf("r%d", k), k
}
func (m calleeMethods) gate(k int) {
	m.d.add(k, 3, "call")
	if <-m.d.gates[k] == "panic" { // nobody writes to gates[0]
		boom(k)
	}
}

// boom panics in one of several ways
func boom(k int) {
	switch k % 5 {
	case 0:
		panic("boom")
	case 1:
		panic(errors.New("boom"))
	case 2:
		var boom []int
		_ = boom[k]
	case 3:
		panic(struct{ S string }{"boom"})
	case 4:
		var boom map[string]int
		boom["x"] = k
	}
}

// boomed tells whether e reports such a panic
func boomed(e string) bool {
	return strings.Contains(e, "boom") || strings.Contains(e, "index out of range") || strings.Contains(e, "nil map")
}

func (m calleeMethods) Gate(k int) string {
	m.gate(k)
	return fmt.Sprintf("r%d", k)
}
func (m calleeMethods) Gvoid(k int) { m.gate(k) }
func (m calleeMethods) Panic(k int) string {
	m.d.add(k, 3, "call")
	boom(k)
	return ""
}
func (m calleeMethods) Chan(k int) <-chan string {
	m.d.add(k, 3, "call")
	return m.d.chs[k]
}
func (m calleeMethods) Gchan(k int) chan string {
	m.gate(k)
	return m.d.chs[k]
}
func (m calleeMethods) consume(k, s int, ch <-chan string) int {
	n := 0
	for v := range ch {
		n++
		m.d.add(k, s, upItem(k, s, v))
	}
	m.d.add(k, s, "end")
	return n
}
func upItem(k, s int, v string) string {
	var kk, ss, nn int
	if _, err := fmt.Sscanf(v, "u%d.%d.%d", &kk, &ss, &nn); err != nil || kk != k || ss != s {
		return "foreign:" + v
	}
	return fmt.Sprintf("item:%d", nn)
}
func (m calleeMethods) Up(k int, ch <-chan string) string {
	m.d.add(k, 3, "call")
	m.consume(k, 1, ch)
	return fmt.Sprintf("r%d", k)
}
func (m calleeMethods) Up2(a <-chan string, k int, b chan string) string {
	m.d.add(k, 3, "call")
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		m.consume(k, 1, a)
	}()
	m.consume(k, 2, b)
	wg.Wait()
	return fmt.Sprintf("r%d", k)
}
func (m calleeMethods) Gup(k int, ch <-chan string) string {
	m.gate(k)
	m.consume(k, 1, ch)
	return fmt.Sprintf("r%d", k)
}
func (m calleeMethods) Upleave(k int, ch <-chan string) string {
	m.d.add(k, 3, "call")
	return fmt.Sprintf("r%d", k)
}

func (m calleeMethods) Uppanic(k int, ch <-chan string) string {
	m.d.add(k, 3, "call")
	boom(k)
	return ""
}

// Hstream, Hup and Hval are the methods of a herd
func (m calleeMethods) Hstream(tag string, n int) <-chan string {
	ch := make(chan string)
	go func() {
		defer close(ch)
		for i := 0; i < n; i++ {
			ch <- fmt.Sprintf("%s:%d", tag, i)
		}
	}()
	return ch
}
func (m calleeMethods) Hup(a <-chan string, tag string, b <-chan string) string {
	res := make(chan string)
	for _, c := range []<-chan string{a, b} {
		go func() {
			var sb strings.Builder
			for v := range c {
				sb.WriteString(v + ",")
			}
			res <- sb.String()
		}()
	}
	x, y := <-res, <-res
	if x > y {
		x, y = y, x
	}
	return tag + "/" + x + "/" + y
}
func (m calleeMethods) Hval(tag string) string { return tag }

// herd is a lot of calls of all kinds, with everything they have to be answered with
type herd struct {
	want map[string][]string
	got  map[string][]string
}

func newHerd(tag string, uploads bool) (*herd, []Msg) {
	h := &herd{want: map[string][]string{}, got: map[string][]string{}}
	var ms []Msg
	const n = 60
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("%s.v%d", tag, i)
		h.want[id] = []string{"3:" + id}
		ms = append(ms, Msg{Type: 1, ID: id, Target: "hval", Args: []any{id}})
		id = fmt.Sprintf("%s.s%d", tag, i)
		items := i % 5
		if i == 7 {
			items = 300
		}
		for j := 0; j < items; j++ {
			h.want[id] = append(h.want[id], fmt.Sprintf("2:%s:%d", id, j))
		}
		h.want[id] = append(h.want[id], "3:")
		ms = append(ms, Msg{Type: 4, ID: id, Target: "hstream", Args: []any{id, items}})
		if uploads {
			id = fmt.Sprintf("%s.u%d", tag, i)
			ms = append(ms, Msg{Type: 1, ID: id, Target: "hup", Args: []any{id}, StreamIds: []string{id + ".a", id + ".b"}})
		}
	}
	if !uploads {
		return h, ms
	}
	var a, b [n]string
	for j := 0; j < 40; j++ {
		for i := 0; i < n; i++ {
			id := fmt.Sprintf("%s.u%d", tag, i)
			if j < i%4 || i == 5 && j < 40 {
				ms = append(ms, Msg{Type: 2, ID: id + ".a", Item: fmt.Sprintf("a%d", j)})
				a[i] += fmt.Sprintf("a%d,", j)
			}
			if j < i%7 {
				ms = append(ms, Msg{Type: 2, ID: id + ".b", Item: fmt.Sprintf("b%d.%d", i, j)})
				b[i] += fmt.Sprintf("b%d.%d,", i, j)
			}
		}
	}
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("%s.u%d", tag, (i*7)%n)
		ms = append(ms, Msg{Type: 3, ID: id + ".b"}, Msg{Type: 3, ID: id + ".a"})
		id = fmt.Sprintf("%s.u%d", tag, i)
		x, y := a[i], b[i]
		if x > y {
			x, y = y, x
		}
		h.want[id] = []string{"3:" + id + "/" + x + "/" + y}
	}
	return h, ms
}

// take tells whether m belongs to h
func (h *herd) take(m Msg) bool {
	if _, ok := h.want[m.ID]; !ok {
		return false
	}
	ev := fmt.Sprintf("%d:", m.Type)
	switch {
	case m.Error != "":
		ev += "error " + m.Error
	case m.Type == 2:
		ev += fmt.Sprint(m.Item)
	case m.HasResult:
		ev += fmt.Sprint(m.Result)
	}
	h.got[m.ID] = append(h.got[m.ID], ev)
	return true
}

// wrong returns what was not answered as it had to be
func (h *herd) wrong(all bool) string {
	ids := make([]string, 0, len(h.want))
	for id := range h.want {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		w, g := h.want[id], h.got[id]
		for i := range g {
			if i >= len(w) || w[i] != g[i] {
				return fmt.Sprintf("%s: %d is %s", id, i, g[i])
			}
		}
		if all && len(g) < len(w) {
			return fmt.Sprintf("%s: %d of %d", id, len(g), len(w))
		}
	}
	return ""
}

type noenc struct{ C chan int }

func (m calleeMethods) Noenc(k int) noenc {
	m.d.add(k, 3, "call")
	return noenc{make(chan int)}
}

type calleeHub struct {
	signalr.Hub
	calleeMethods
}

// Initialize gives the hubs of hostile connections a state nobody looks at
func (h *calleeHub) Initialize(ctx signalr.HubContext) {
	h.Hub.Initialize(ctx)
	if ctx.ConnectionID() != "conn" {
		st := newCalleeState(9)
		for i := range st.gates {
			close(st.gates[i])
			close(st.chs[i])
		}
		h.calleeMethods = calleeMethods{st}
	}
}

type calleeReceiver struct {
	signalr.Receiver
	calleeMethods
}

// n varies what does not matter
func calleeInvocation(k int, a Act, role string, n int) Msg {
	m := Msg{Type: a.I("ty"), Args: []any{k}, Target: a.S("m")}
	if a.B("hasid") {
		m.ID = fmt.Sprintf("c%d", k)
	}
	sid := func(i int) string { return fmt.Sprintf("s%d.%d", k, i) }
	switch a.S("m") {
	case "unknown":
		m.Target = "nosuchmethod"
	case "badtype":
		m.Target = "val"
		m.Args = []any{"notanumber"}
	case "badcount":
		m.Target = "val"
		m.Args = []any{k, k}
	case "upfew":
		m.Target = "up2"
		m.Args = []any{k, k}
		m.StreamIds = []string{sid(1)}
	case "upmany":
		if k%2 == 0 {
			m.Target = "val"
			m.Args = []any{}
			m.StreamIds = []string{sid(1)}
		} else {
			m.Target = "up"
			m.Args = []any{}
			m.StreamIds = []string{sid(1), sid(2)}
		}
	case "upsame":
		m.Target = "up2"
		m.StreamIds = []string{sid(1), sid(1)}
	case "lifecycle":
		m.Target = []string{"onConnected", "onDisconnected", "initialize", "init", "server"}[n%5]
		if n%5 < 2 {
			m.Args = []any{"conn"}
		} else if n%5 == 4 {
			m.Args = []any{}
		}
		if role == "server" && n%5 > 2 {
			m.Target = "onDisconnected"
		} else if role == "client" && n%5 < 3 {
			m.Target = "init"
		}
	case "up", "upleave", "uppanic", "gup":
		m.StreamIds = []string{sid(1)}
	case "up2":
		m.StreamIds = []string{sid(1), sid(2)}
	}
	// method names are not case sensitive
	if k%2 == 0 {
		m.Target = strings.ToUpper(m.Target[:1]) + m.Target[1:]
	}
	return m
}

// calleeObsMsg abstracts a message written by the code under test. It returns the number of the call it belongs to.
func calleeObsMsg(m Msg, n int, detailed bool) (k int, ev string) {
	if _, err := fmt.Sscanf(m.ID, "c%d", &k); err != nil || m.ID != fmt.Sprintf("c%d", k) || k < 1 || k > n {
		// upload stream ids and everything else
		if strings.HasPrefix(m.ID, "junk") && m.Type == 3 && m.Error != "" {
			return 0, "" // answered junk
		}
		if strings.HasPrefix(m.ID, "s") && m.Type == 3 && m.Error != "" {
			return 0, "" // the peer is told that nobody reads his upload anymore
		}
		switch m.Type {
		case 6:
			return 0, "ping"
		case 7:
			return 0, "close"
		}
		return 0, fmt.Sprintf("type%d:%s", m.Type, m.ID)
	}
	val := func(v any) string {
		switch v := v.(type) {
		case string:
			var kk, nn int
			if v == fmt.Sprintf("r%d", k) {
				return "val"
			}
			if _, err := fmt.Sscanf(v, "i%d.%d", &kk, &nn); err == nil && kk == k {
				return fmt.Sprintf("item%d", nn)
			}
		case []any:
			if len(v) == 2 && v[0] == fmt.Sprintf("r%d", k) && v[1] == int64(k) {
				return "val2"
			}
		}
		return fmt.Sprintf("foreign:%v", v)
	}
	switch m.Type {
	case 2:
		v := val(m.Item)
		if strings.HasPrefix(v, "item") {
			return k, "item:" + v[4:]
		}
		return k, "item:" + v
	case 3:
		switch {
		case m.Error != "" && m.HasResult:
			return k, "both"
		case m.Error != "":
			stack := strings.Contains(m.Error, "goroutine ") || strings.Contains(m.Error, ".go:")
			if boomed(m.Error) {
				if stack != detailed {
					return k, fmt.Sprintf("errp-stack-%v", stack)
				}
				return k, "errp"
			}
			if stack {
				return k, "err-stack"
			}
			return k, "err"
		case m.HasResult:
			return k, val(m.Result)
		default:
			return k, "void"
		}
	}
	return k, fmt.Sprintf("type%d", m.Type)
}

type calleeObs struct {
	Out   [][]string    `json:"out"`
	Conn  []string      `json:"conn"`
	Log   [][3][]string `json:"log"`
	Alive bool          `json:"alive"`
}

func calleeDriver(r *Run) {
	n := r.Cfg.I("ncalls")
	proto, role, detailed := r.Cfg.S("proto"), r.Cfg.S("role"), r.Cfg.B("detailed")
	st := newCalleeState(n)
	ctx, cancel := context.WithCancel(context.Background())
	opts := append(longOpts(), signalr.EnableDetailedErrors(detailed), signalr.MaxConcurrentStreams(uint(r.Cfg.I("cap"))),
		signalr.StreamBufferCapacity(uint(r.Cfg.I("buf"))))
	conn := newMemConn(context.Background(), "conn")
	var s *session
	if role == "server" {
		srv, err := signalr.NewServer(ctx, append(opts, signalr.HubFactory(func() signalr.HubInterface {
			return &calleeHub{calleeMethods: calleeMethods{st}}
		}))...)
		if err != nil {
			panic(err)
		}
		s = startServe(r, srv, conn, proto)
	} else {
		c, err := signalr.NewClient(ctx, append(opts, signalr.WithConnection(r.wire(conn)), signalr.TransferFormat(transferFormat(proto)),
			signalr.WithReceiver(&calleeReceiver{calleeMethods: calleeMethods{st}}))...)
		if err != nil {
			panic(err)
		}
		c.Start()
		s = &session{proto: proto, role: "client", conn: conn, client: c}
	}
	s.cancel = cancel
	s.handshake(r)
	obs := calleeObs{Out: make([][]string, n), Conn: []string{}, Log: nil}
	for i := range obs.Out {
		obs.Out[i] = []string{}
	}
	var chunk []Msg
	var nbrs []*memConn
	ncalls := 0
	closed := make([]bool, n+1)
	npush := make([]int, n+1)
	upn := map[[2]int]int{}
	dropped := false
	deliver := func(m Msg, more bool) {
		if dropped {
			return
		}
		chunk = append(chunk, m)
		if !more {
			s.send(chunk...)
			chunk = nil
		}
	}
	nnbr := 0
	var herds []*herd
	late := false // is there a method which might not read its upload and keep everybody waiting?
	for ai, a := range r.Acts {
		k := a.I("k")
		switch a.S("a") {
		case "send":
			ncalls++
			late = late || a.S("m") == "gup"
			deliver(calleeInvocation(ncalls, a, role, len(r.Acts)+ncalls), a.B("more"))
		case "cancel":
			deliver(Msg{Type: 5, ID: fmt.Sprintf("c%d", k)}, a.B("more"))
		case "uitem":
			si := [2]int{k, a.I("s")}
			upn[si]++
			deliver(Msg{Type: 2, ID: fmt.Sprintf("s%d.%d", k, a.I("s")), Item: fmt.Sprintf("u%d.%d.%d", k, a.I("s"), upn[si])}, a.B("more"))
		case "udone":
			m := Msg{Type: 3, ID: fmt.Sprintf("s%d.%d", k, a.I("s"))}
			switch a.S("how") {
			case "error":
				m.Error = "upload failed"
			case "result":
				m.HasResult, m.Result = true, fmt.Sprintf("u%d.%d.0", k, a.I("s"))
			}
			deliver(m, a.B("more"))
		case "rel":
			select {
			case st.gates[k] <- a.S("how"):
			default:
			}
		case "push":
			if !closed[k] {
				npush[k]++
				st.chs[k] <- fmt.Sprintf("i%d.%d", k, npush[k])
			}
		case "close":
			if !closed[k] {
				closed[k] = true
				close(st.chs[k])
			}
		case "ping":
			deliver(Msg{Type: 6}, a.B("more"))
		case "storm":
			// cancellations of invocations nobody knows, more than there could be streams
			for i := 0; i < 150; i++ {
				deliver(Msg{Type: 5, ID: fmt.Sprintf("junk%d.%d", ncalls, i)}, i < 149 || a.B("more"))
			}
		case "herd":
			h, ms := newHerd(fmt.Sprintf("herd%d", ai), r.Cfg.I("cap") == 0)
			herds = append(herds, h)
			for i, m := range ms {
				deliver(m, i < len(ms)-1 || a.B("more"))
			}
		case "crowd":
			// more running methods and streams than anybody expects
			for i := 0; i < 150; i++ {
				deliver(Msg{Type: 1, ID: fmt.Sprintf("junk%d.g%d", ncalls, i), Target: "gate", Args: []any{0}}, true)
				deliver(Msg{Type: 4, ID: fmt.Sprintf("junk%d.c%d", ncalls, i), Target: "chan", Args: []any{0}}, i < 149 || a.B("more"))
			}
		case "junk":
			deliver(Msg{Raw: junk(proto, a.I("kind"))}, a.B("more"))
		case "nbr":
			if role == "server" {
				nnbr++
				c := newMemConn(context.Background(), fmt.Sprintf("other%d", nnbr))
				nbrs = append(nbrs, c)
				startServe(r, s.server, c, proto)
				kind := a.I("kind")
				if kind < 100 {
					hostile(r, c, proto, kind)
					break
				}
				for i := 0; i < 5; i++ {
					if i > 0 {
						c = newMemConn(context.Background(), fmt.Sprintf("other%d.%d", nnbr, i))
						nbrs = append(nbrs, c)
						startServe(r, s.server, c, proto)
					}
					hostile(r, c, proto, 100+100*r.Cfg.I("fuzz")+10*nnbr+i)
				}
			}
		case "drop":
			dropped = true
			chunk = nil
			conn.Drop(io.EOF)
		default:
			panic("harness: unknown action " + a.S("a"))
		}
		r.Settle()
	msgs:
		for _, m := range s.pull() {
			for _, h := range herds {
				if h.take(m) {
					continue msgs
				}
			}
			mk, ev := calleeObsMsg(m, n, detailed)
			if ev == "" {
				continue
			}
			if mk == 0 {
				obs.Conn = append(obs.Conn, ev)
			} else {
				obs.Out[mk-1] = append(obs.Out[mk-1], ev)
			}
		}
		if s.torn {
			obs.Conn = append(obs.Conn, "torn")
			s.torn = false
		}
		for _, h := range herds {
			if w := h.wrong(chunk == nil && !dropped && !late && !s.ended()); w != "" {
				obs.Conn = append(obs.Conn, w)
			}
		}
		st.mx.Lock()
		obs.Log = append([][3][]string{}, st.log[1:]...)
		obs.Conn = append(obs.Conn, st.extra...)
		st.extra = nil
		obs.Alive = !s.ended()
		r.Rec(a, obs)
		st.mx.Unlock()
	}
	for _, c := range nbrs {
		c.Close()
	}
	s.cleanup()
	close(st.gates[0])
	close(st.chs[0])
	for k := 1; k <= n; k++ {
		select {
		case st.gates[k] <- "val":
		default:
		}
		if !closed[k] {
			close(st.chs[k])
		}
	}
}
