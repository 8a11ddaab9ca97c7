package harness

import (
	"context"
	"fmt"
	"io"
	"strings"
	"sync"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/philippseith/signalr"
)

func init() { drivers["caller"] = callerDriver }

// callerCall is one call of the user.
type callerCall struct {
	kind   string
	push   chan string
	pushed int
	mx     sync.Mutex
	got    []string
	closed bool
	sent   []string
	up     []string
	n      int // items sent by the server
	hold   chan struct{}
	read   chan struct{} // not nil: the user does not read
}

// results reads the channel of a call as long as the user wants to
func collectResults[T any](c *callerCall, ch <-chan T, f func(T)) {
	go func() {
		for {
			c.mx.Lock()
			read := c.read
			c.mx.Unlock()
			if read != nil {
				<-read
				continue
			}
			select {
			case x, ok := <-ch:
				if !ok {
					c.close()
					return
				}
				f(x)
			case <-c.hold:
			}
		}
	}()
}

func (c *callerCall) add(s string) {
	c.mx.Lock()
	c.got = append(c.got, s)
	c.mx.Unlock()
}

func (c *callerCall) close() {
	c.mx.Lock()
	c.closed = true
	c.mx.Unlock()
}

// callerConn is a connection of the client and what the server knows about it.
type callerConn struct {
	*memConn
	hs    bool
	msgs  []Msg
	torn  bool
	ids   map[string]int    // id of an invocation -> call
	sids  map[string]int    // id of an upload stream -> call
	byNum map[int]string    // call -> id
	pings map[string]string // invocations of the server
	storm map[int]string    // id of each call of the storm
	ssids map[string][2]int // id of an upload stream of the storm -> call, number of the stream
	sup   map[[2]int][]string
}

type callerReceiver struct{ signalr.Receiver }

func (callerReceiver) Ping(s string) string { return "pong" + s }

type callerObsCall struct {
	Got    []string `json:"got"`
	Closed bool     `json:"closed"`
	Sent   []string `json:"sent"`
	Up     []string `json:"up"`
}

type callerObs struct {
	St     string          `json:"st"`
	Calls  []callerObsCall `json:"calls"`
	Served int             `json:"served"`
	Odd    []string        `json:"odd"`
}

var clientStates = map[signalr.ClientState]string{signalr.ClientCreated: "created", signalr.ClientConnecting: "connecting",
	signalr.ClientConnected: "up", signalr.ClientClosed: "closed"}

// stormUp tells how many items the stream s of the call k of a storm has
func stormUp(k, s int) int {
	if k == 10 {
		return 50
	}
	return (k/6 + 3*s) % 5
}

func callerDriver(r *Run) {
	n := r.Cfg.I("ncalls")
	proto := r.Cfg.S("proto")
	var mx sync.Mutex
	odd := []string{}
	addOdd := func(f string, a ...any) {
		mx.Lock()
		odd = append(odd, fmt.Sprintf(f, a...))
		mx.Unlock()
	}
	var conns []*callerConn
	dial := func() (signalr.Connection, error) {
		mx.Lock()
		defer mx.Unlock()
		c := &callerConn{memConn: newMemConn(context.Background(), fmt.Sprintf("conn%d", len(conns)+1)), ids: map[string]int{},
			sids: map[string]int{}, byNum: map[int]string{}, storm: map[int]string{}, ssids: map[string][2]int{}, sup: map[[2]int][]string{}, pings: map[string]string{}}
		conns = append(conns, c)
		return r.wire(c.memConn), nil
	}
	ctx, cancel := context.WithCancel(context.Background())
	opts := append(longOpts(), signalr.TransferFormat(transferFormat(proto)), signalr.WithReceiver(callerReceiver{}), signalr.HandshakeTimeout(farAway),
		signalr.StreamBufferCapacity(uint(r.Cfg.I("buf"))))
	if r.Cfg.B("reconn") {
		opts = append(opts, signalr.WithConnector(dial), signalr.WithBackoff(func() backoff.BackOff { return backoff.NewConstantBackOff(time.Second) }))
	} else {
		c, _ := dial()
		opts = append(opts, signalr.WithConnection(c))
	}
	client, err := signalr.NewClient(ctx, opts...)
	if err != nil {
		panic(err)
	}
	calls := make([]*callerCall, n+1)
	for i := range calls {
		calls[i] = &callerCall{push: make(chan string, 1000), hold: make(chan struct{}), got: []string{}, sent: []string{}, up: []string{}}
	}
	served := 0
	last := func() *callerConn {
		mx.Lock()
		defer mx.Unlock()
		return conns[len(conns)-1]
	}
	// pull takes what the client wrote
	pullConn := func(c *callerConn) {
		w := c.TakeWrites()
		if len(w) > 0 && !c.hs {
			c.hs = true
			if string(w[0]) != string(handshakeReq(proto)) {
				addOdd("handshake %q", w[0])
			}
			w = w[1:]
		}
		ms, torn := decodeWrites(proto, w)
		if torn {
			addOdd("torn")
		}
		for _, m := range ms {
			switch m.Type {
			case 1, 4:
				i, ok := 0, false
				if len(m.Args) == 1 {
					var f int64
					f, ok = m.Args[0].(int64)
					i = int(f)
				}
				if ok && i < 0 && m.Target == "Mstorm" && m.HasID && m.ID != "" {
					if _, ok := c.ids[m.ID]; ok {
						addOdd("id used twice: %s", m.ID)
					}
					c.ids[m.ID] = i
					c.storm[-1-i] = m.ID
					for s, id := range m.StreamIds {
						_, a := c.ids[id]
						_, b := c.ssids[id]
						if a || b {
							addOdd("id used twice: %s", id)
						}
						c.ssids[id] = [2]int{-1 - i, s}
					}
					continue
				}
				if ok && i < 0 && m.Target == "Mquick" && m.ID != "" {
					if _, ok := c.ids[m.ID]; ok {
						addOdd("id used twice: %s", m.ID)
					}
					c.ids[m.ID] = i
					for _, id := range m.StreamIds {
						c.ssids[id] = [2]int{i, 0}
					}
					continue
				}
				if !ok || i < 1 || i > n || m.Target != "M"+calls[i].kind || !m.HasID || m.ID == "" {
					addOdd("invocation %q %q %v", m.ID, m.Target, m.Args)
					continue
				}
				ids := append([]string{m.ID}, m.StreamIds...)
				for _, id := range ids {
					_, a := c.ids[id]
					_, b := c.sids[id]
					if a || b {
						addOdd("id used twice: %s", id)
					}
				}
				c.ids[m.ID] = i
				c.byNum[i] = m.ID
				what := "call"
				if m.Type == 4 {
					what = "stream"
				}
				if len(m.StreamIds) > 0 {
					what = "push"
					if len(m.StreamIds) != 1 || m.Type != 1 {
						what = fmt.Sprintf("push %v %d", m.StreamIds, m.Type)
					}
				}
				for _, id := range m.StreamIds {
					c.sids[id] = i
				}
				calls[i].sent = append(calls[i].sent, what)
			case 2:
				if s, ok := c.ssids[m.ID]; ok {
					c.sup[s] = append(c.sup[s], fmt.Sprint(m.Item))
					continue
				}
				i, ok := c.sids[m.ID]
				if !ok {
					addOdd("item for %q", m.ID)
					continue
				}
				s, _ := m.Item.(string)
				ev := "foreign:" + s
				if p := fmt.Sprintf("u%d.", i); strings.HasPrefix(s, p) {
					ev = s[len(p):]
				}
				calls[i].up = append(calls[i].up, ev)
			case 3:
				if x, ok := c.pings[m.ID]; ok {
					delete(c.pings, m.ID)
					if m.Error != "" || m.Result != "pong"+x {
						addOdd("answer %v %q", m.Result, m.Error)
					}
					served++
					continue
				}
				if s, ok := c.ssids[m.ID]; ok {
					c.sup[s] = append(c.sup[s], "c"+m.Error)
					continue
				}
				i, ok := c.sids[m.ID]
				if !ok || m.Error != "" || m.HasResult {
					addOdd("completion for %q %q", m.ID, m.Error)
					continue
				}
				calls[i].up = append(calls[i].up, "c")
			case 6, 7:
			default:
				addOdd("message %d", m.Type)
			}
		}
	}
	pull := func() {
		mx.Lock()
		cs := append([]*callerConn(nil), conns...)
		mx.Unlock()
		for _, c := range cs {
			pullConn(c)
		}
	}
	collect := func(i int, ir signalr.InvokeResult) {
		c := calls[i]
		switch {
		case ir.Error != nil && ir.Value != nil:
			c.add("both")
		case ir.Error != nil && ir.Error.Error() == fmt.Sprintf("boom%d", i):
			c.add("e")
		case ir.Error != nil && strings.Contains(ir.Error.Error(), "boom"):
			c.add("foreign:" + ir.Error.Error())
		case ir.Error != nil:
			c.add("x")
		case ir.Value == fmt.Sprintf("r%d", i):
			c.add("r")
		default:
			s, _ := ir.Value.(string)
			if p := fmt.Sprintf("p%d.", i); strings.HasPrefix(s, p) {
				c.add(s[len(p):])
			} else {
				c.add(fmt.Sprintf("foreign:%v", ir.Value))
			}
		}
	}
	// storm issues a crowd of calls and answers them in another order
	storm := func() {
		const m = 300
		var all sync.WaitGroup
		var smx sync.Mutex
		got := make([][]string, m)
		begin := make(chan struct{})
		for k := range got {
			all.Add(1)
			go func() {
				defer all.Done()
				var ch <-chan signalr.InvokeResult
				<-begin
				if k%6 == 4 {
					a, b := make(chan string), make(chan string, 100)
					for s, up := range []chan string{a, b} {
						go func() {
							for j := 0; j < stormUp(k, s); j++ {
								up <- fmt.Sprintf("u%d.%d.%d", k, s, j)
							}
							close(up)
						}()
					}
					if k%12 == 4 {
						ch = client.PushStreams("Mstorm", a, -1-k, b)
					} else {
						ch = client.PushStreams("Mstorm", -1-k, (<-chan string)(a), b)
					}
				} else if k%3 == 0 {
					ch = client.PullStream("Mstorm", -1-k)
				} else {
					ch = client.Invoke("Mstorm", -1-k)
				}
				for ir := range ch {
					s := fmt.Sprint(ir.Value)
					if ir.Error != nil {
						s = "error " + ir.Error.Error()
					}
					smx.Lock()
					got[k] = append(got[k], s)
					smx.Unlock()
				}
			}()
		}
		r.Settle()
		close(begin)
		r.Settle()
		pull()
		c := last()
		if len(c.storm) != m {
			addOdd("%d of the storm's calls were sent", len(c.storm))
		}
		for k := 4; k < m; k += 6 {
			for s := 0; s < 2; s++ {
				var w []string
				for j := 0; j < stormUp(k, s); j++ {
					w = append(w, fmt.Sprintf("u%d.%d.%d", k, s, j))
				}
				w = append(w, "c")
				if g := c.sup[[2]int{k, s}]; fmt.Sprint(g) != fmt.Sprint(w) {
					addOdd("storm: %d.%d sent %v instead of %v", k, s, g, w)
				}
			}
		}
		want := make([][]string, m)
		var b []byte
		for x := 0; x < 2*m; x++ {
			k := x * 157 % m
			id, ok := c.storm[k]
			if !ok {
				continue
			}
			switch {
			case k%3 == 0 && x < m:
				b = append(b, encode(proto, Msg{Type: 2, ID: id, HasID: true, Item: fmt.Sprintf("s%d.1", k)})...)
				want[k] = append(want[k], fmt.Sprintf("s%d.1", k))
			case k%3 == 0:
				b = append(b, encode(proto, Msg{Type: 3, ID: id, HasID: true})...)
			case k%3 == 1 && x < m:
				b = append(b, encode(proto, Msg{Type: 3, ID: id, HasID: true, Result: fmt.Sprintf("s%d", k), HasResult: true})...)
				want[k] = append(want[k], fmt.Sprintf("s%d", k))
			case k%3 == 2 && x >= m:
				b = append(b, encode(proto, Msg{Type: 3, ID: id, HasID: true, Error: fmt.Sprintf("s%d", k)})...)
				want[k] = append(want[k], fmt.Sprintf("error s%d", k))
			}
			if x%7 == 0 || x == 2*m-1 {
				c.Feed(b)
				b = nil
			}
		}
		r.Settle()
		c.storm = map[int]string{}
		done := make(chan struct{})
		go func() {
			all.Wait()
			close(done)
		}()
		r.Settle()
		select {
		case <-done:
		default:
			addOdd("calls of the storm are not resolved")
		}
		smx.Lock()
		defer smx.Unlock()
		for k := range got {
			if fmt.Sprint(got[k]) != fmt.Sprint(want[k]) {
				addOdd("storm: %v instead of %v", got[k], want[k])
			}
		}
	}
	// quick issues calls which are answered before the writing of the invocation has returned
	quick := func() {
		c := last()
		c.onWrite = func(b []byte) {
			ms, _ := decodeWrites(proto, [][]byte{b})
			for _, m := range ms {
				if m.Target != "Mquick" {
					continue
				}
				if m.Type == 4 {
					c.Feed(encode(proto, Msg{Type: 2, ID: m.ID, HasID: true, Item: "q1"}))
					c.Feed(encode(proto, Msg{Type: 2, ID: m.ID, HasID: true, Item: "q2"}))
					c.Feed(encode(proto, Msg{Type: 3, ID: m.ID, HasID: true}))
				} else {
					c.Feed(encode(proto, Msg{Type: 3, ID: m.ID, HasID: true, Result: "q", HasResult: true}))
				}
				time.Sleep(20 * time.Millisecond)
			}
		}
		var all sync.WaitGroup
		expect := func(what string, ch <-chan signalr.InvokeResult, want ...any) {
			all.Add(1)
			go func() {
				defer all.Done()
				var got []any
				for ir := range ch {
					got = append(got, ir.Value)
					if ir.Error != nil {
						got = append(got, ir.Error)
					}
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					addOdd("quick %s: %v instead of %v", what, got, want)
				}
			}()
		}
		up := make(chan string, 2)
		up <- "u1"
		close(up)
		expect("invoke", client.Invoke("Mquick", -2001), "q")
		expect("pull", client.PullStream("Mquick", -2002), "q1", "q2")
		expect("push", client.PushStreams("Mquick", up, -2003), "q")
		all.Add(1)
		go func() {
			defer all.Done()
			for err := range client.Send("Mquick", -2004) {
				if err != nil {
					addOdd("quick send: %v", err)
				}
			}
		}()
		r.Advance(time.Second)
		c.onWrite = nil
		done := make(chan struct{})
		go func() {
			all.Wait()
			close(done)
		}()
		r.Settle()
		select {
		case <-done:
		default:
			addOdd("quick calls are not resolved")
		}
		pull()
		if g := c.sup[[2]int{-2003, 0}]; fmt.Sprint(g) != "[u1 c]" {
			addOdd("quick: sent %v", g)
		}
		delete(c.sup, [2]int{-2003, 0})
	}
	var do func(a Act)
	do = func(a Act) {
		i := a.I("i")
		switch a.S("a") {
		case "start":
			client.Start()
		case "accept":
			last().Feed([]byte("{}\x1e"))
		case "call":
			c := calls[i]
			c.kind = a.S("kind")
			results := func(ch <-chan signalr.InvokeResult) {
				collectResults(c, ch, func(ir signalr.InvokeResult) { collect(i, ir) })
			}
			switch c.kind {
			case "invoke":
				results(client.Invoke("Minvoke", i))
			case "pull":
				results(client.PullStream("Mpull", i))
			case "push":
				if i%2 == 0 {
					results(client.PushStreams("Mpush", i, c.push))
				} else {
					var ch <-chan string = c.push
					results(client.PushStreams("Mpush", ch, i))
				}
			case "send":
				ch := client.Send("Msend", i)
				collectResults(c, ch, func(err error) {
					if err == nil {
						c.add("nil")
					} else {
						collect(i, signalr.InvokeResult{Error: err})
					}
				})
			}
		case "push":
			c := calls[i]
			if s := a.S("s"); s == "c" {
				close(c.push)
			} else {
				c.push <- fmt.Sprintf("u%d.%s", i, s)
			}
		case "srv":
			mx.Lock()
			c := conns[min(a.I("c"), len(conns))-1]
			mx.Unlock()
			var b []byte
			for _, x := range a.L("ms") {
				m := Act(x.(map[string]any))
				i := m.I("i")
				msg := Msg{Type: 3, ID: c.byNum[i], HasID: true}
				switch m.S("w") {
				case "res":
					msg.Result, msg.HasResult = fmt.Sprintf("r%d", i), true
					if calls[i].kind == "pull" {
						// the result of a stream is its last item
						msg.Result = fmt.Sprintf("p%d.r", i)
					}
				case "err":
					msg.Error = fmt.Sprintf("boom%d", i)
				case "item":
					calls[i].n++
					msg.Type = 2
					msg.Item = fmt.Sprintf("p%d.%d", i, calls[i].n)
				}
				b = append(b, encode(proto, msg)...)
			}
			c.Feed(b)
		case "srvinv":
			c := last()
			id := c.byNum[i]
			c.pings[id] = id
			c.Feed(encode(proto, Msg{Type: 1, ID: id, HasID: true, Target: "ping", Args: []any{id}}))
		case "lose":
			mx.Lock()
			c := conns[min(a.I("c"), len(conns))-1]
			mx.Unlock()
			switch how := a.S("how"); how {
			case "drop":
				c.Drop(io.EOF)
			case "err":
				c.Drop(io.ErrUnexpectedEOF)
			default:
				m := Msg{Type: 7, Allow: strings.HasSuffix(how, "re")}
				if strings.HasPrefix(how, "byeerr") {
					m.Error = "go away"
				}
				c.Feed(encode(proto, m))
			}
		case "stop":
			done := make(chan struct{})
			go func() {
				client.Stop()
				close(done)
			}()
			go func() {
				select {
				case <-done:
				case <-time.After(60 * time.Second):
					addOdd("stop does not end")
				}
			}()
		case "hold":
			c := calls[i]
			c.mx.Lock()
			c.read = make(chan struct{})
			c.mx.Unlock()
			select {
			case c.hold <- struct{}{}:
			default: // it is closed
			}
		case "read":
			c := calls[i]
			c.mx.Lock()
			close(c.read)
			c.read = nil
			c.mx.Unlock()
		case "quick":
			quick()
		case "storm":
			storm()
		case "stall":
			last().Stall()
		case "unstall":
			last().Unstall()
		case "par":
			start := make(chan struct{})
			var wg sync.WaitGroup
			for _, x := range a.L("acts") {
				x := Act(x.(map[string]any))
				if x.S("a") == "call" {
					calls[x.I("i")].kind = x.S("kind")
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					jitter()
					do(x)
				}()
			}
			close(start)
			wg.Wait()
		default:
			panic("harness: caller: unknown action " + a.S("a"))
		}
	}
	slow := func(a Act) bool {
		var f func(a Act) bool
		f = func(a Act) bool {
			switch a.S("a") {
			case "lose", "stop", "srv":
				return true
			}
			for _, x := range a.L("acts") {
				if f(Act(x.(map[string]any))) {
					return true
				}
			}
			return false
		}
		return f(a)
	}
	for _, a := range r.Acts {
		do(a)
		r.Settle()
		if slow(a) {
			r.Advance(15 * time.Second)
		}
		pull()
		obs := callerObs{St: clientStates[client.State()], Served: served, Odd: odd}
		for i := 1; i <= n; i++ {
			c := calls[i]
			c.mx.Lock()
			obs.Calls = append(obs.Calls, callerObsCall{c.got, c.closed, c.sent, c.up})
			c.mx.Unlock()
		}
		mx.Lock()
		r.Rec(a, obs)
		mx.Unlock()
	}
	for _, c := range calls {
		func() {
			defer func() { _ = recover() }()
			close(c.push)
		}()
		if c.read != nil {
			close(c.read)
			c.read = nil
		}
	}
	go client.Stop()
	cancel()
	mx.Lock()
	cs := append([]*callerConn(nil), conns...)
	mx.Unlock()
	for _, c := range cs {
		c.Close()
	}
	if r.Bubble {
		r.Advance(15 * time.Second)
	}
}
