package harness

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
	"time"

	"github.com/cenkalti/backoff/v4"
	"github.com/philippseith/signalr"
)

func init() { drivers["client"] = clientDriver }

// linear is a policy which gives d0, d0+1, d0+2 .. and gives up after limit delays, when limit is not 0.
type linear struct{ d0, limit, n int }

func (l *linear) Reset() { l.n = 0 }
func (l *linear) NextBackOff() time.Duration {
	if l.limit != 0 && l.n >= l.limit {
		return backoff.Stop
	}
	l.n++
	return time.Duration(l.n-1+l.d0) * time.Second
}

var errDial = errors.New("no dial")

type clientObserver struct {
	ch     chan signalr.ClientState
	cancel context.CancelFunc
	mx     sync.Mutex
	got    []string
	closed bool
}

func (o *clientObserver) read() {
	for st := range o.ch {
		o.mx.Lock()
		o.got = append(o.got, clientStates[st])
		o.mx.Unlock()
	}
	o.mx.Lock()
	o.closed = true
	o.mx.Unlock()
}

type clientWait struct {
	cancel context.CancelFunc
	mx     sync.Mutex
	res    []string
}

type clientObsObserver struct {
	Got    []string `json:"got"`
	Closed bool     `json:"closed"`
}

type clientObs struct {
	St    string              `json:"st"`
	Err   []string            `json:"err"`
	Dials int                 `json:"dials"`
	Conns [][]string          `json:"conns"`
	Obs   []clientObsObserver `json:"obs"`
	Waits [][]string          `json:"waits"`
	Stops int                 `json:"stops"`
	Odd   []string            `json:"odd"`
}

func clientDriver(r *Run) {
	nconns, nobs, nwaits := r.Cfg.I("nconns"), r.Cfg.I("nobs"), r.Cfg.I("nwaits")
	proto := r.Cfg.S("proto")
	var mx sync.Mutex
	odd := []string{}
	addOdd := func(f string, a ...any) {
		mx.Lock()
		odd = append(odd, fmt.Sprintf(f, a...))
		mx.Unlock()
	}
	type dialResult struct {
		conn signalr.Connection
		err  error
	}
	var conns []*memConn
	dials := 0
	dialing := 0
	answer := make(chan dialResult, 1)
	newConn := func() *memConn {
		c := newMemConn(context.Background(), fmt.Sprintf("conn%d", dials))
		return c
	}
	dial := func() (signalr.Connection, error) {
		mx.Lock()
		dials++
		dialing++
		if dialing > 1 {
			odd = append(odd, "two dials")
		}
		conns = append(conns, newConn())
		mx.Unlock()
		x, ok := <-answer
		mx.Lock()
		dialing--
		mx.Unlock()
		if !ok {
			return nil, errDial
		}
		return x.conn, x.err
	}
	timeout := farAway
	if t := r.Cfg.I("t"); t > 0 {
		timeout = time.Duration(t) * time.Second
	}
	opts := append(quietOpts(), signalr.KeepAliveInterval(farAway), signalr.TimeoutInterval(timeout),
		signalr.HandshakeTimeout(time.Duration(r.Cfg.I("h"))*time.Second), signalr.TransferFormat(transferFormat(proto)))
	if r.Cfg.B("reconn") {
		opts = append(opts, signalr.WithConnector(dial), signalr.WithBackoff(func() backoff.BackOff {
			return &linear{d0: r.Cfg.I("d0"), limit: r.Cfg.I("limit")}
		}))
	} else {
		conns = append(conns, newConn())
		opts = append(opts, signalr.WithConnection(conns[0]))
	}
	ctx, cancel := context.WithCancel(context.Background())
	client, err := signalr.NewClient(ctx, opts...)
	if err != nil {
		panic(err)
	}
	observers := make([]*clientObserver, nobs+1)
	for i := range observers {
		observers[i] = &clientObserver{ch: make(chan signalr.ClientState, r.Cfg.I("obuf")), got: []string{}}
	}
	waits := make([]*clientWait, nwaits+1)
	for i := range waits {
		waits[i] = &clientWait{res: []string{"none"}}
	}
	started := false
	stops := 0
	last := func() *memConn {
		mx.Lock()
		defer mx.Unlock()
		return conns[len(conns)-1]
	}
	at := func(i int) *memConn {
		mx.Lock()
		defer mx.Unlock()
		return conns[i-1]
	}
	end := func(c *memConn, how string) {
		switch how {
		case "drop":
			c.Drop(io.EOF)
		case "err":
			c.Drop(io.ErrUnexpectedEOF)
		case "junk":
			if proto == "json" {
				c.Feed([]byte("nonsense\x1e"))
			} else {
				c.Feed([]byte{1, 0xc1})
			}
		default:
			m := Msg{Type: 7, Allow: strings.HasSuffix(how, "re")}
			if strings.HasPrefix(how, "byeerr") {
				m.Error = "go away"
			}
			c.Feed(encode(proto, m))
		}
	}
	prompt := func(what string, f func()) {
		done := make(chan struct{})
		go func() {
			f()
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(100 * time.Millisecond):
			addOdd("%s blocks", what)
		}
	}
	states := map[string]signalr.ClientState{}
	for k, v := range clientStates {
		states[v] = k
	}
	var do func(a Act)
	do = func(a Act) {
		switch a.S("a") {
		case "start":
			started = true
			prompt("start", client.Start)
		case "dialok":
			c := last()
			if a.B("stall") {
				c.Stall()
			}
			select {
			case answer <- dialResult{conn: c}:
			default:
				addOdd("nobody dials")
			}
		case "dialfail":
			select {
			case answer <- dialResult{err: errDial}:
			default:
				addOdd("nobody dials")
			}
		case "accept":
			last().Feed([]byte("{}\x1e"))
		case "bundle":
			c := last()
			b := []byte("{}\x1e")
			switch how := a.S("how"); how {
			case "drop", "err":
				c.Feed(b)
				end(c, how)
			default:
				tmp := newMemConn(context.Background(), "")
				end(tmp, how)
				c.Feed(append(b, tmp.in[0]...))
			}
		case "hsfail":
			c := last()
			switch a.S("how") {
			case "error":
				c.Feed([]byte("{\"error\":\"no\"}\x1e"))
			case "malformed":
				c.Feed([]byte("{]\x1e"))
			case "eof":
				c.Feed([]byte("{"))
				c.Drop(io.EOF)
			case "early":
				c.Drop(io.ErrUnexpectedEOF)
			}
		case "lose":
			end(at(a.I("c")), a.S("how"))
		case "msg":
			at(a.I("c")).Feed(encode(proto, Msg{Type: 6}))
		case "stop":
			go func() {
				client.Stop()
				mx.Lock()
				stops++
				mx.Unlock()
			}()
		case "cancel":
			cancel()
		case "tick":
			digest := func() string {
				mx.Lock()
				defer mx.Unlock()
				s := fmt.Sprint(client.State(), client.Err(), dials, dialing)
				for _, c := range conns {
					c.mx.Lock()
					s += fmt.Sprint(" ", len(c.writes), c.reads)
					c.mx.Unlock()
				}
				return s
			}
			before := digest()
			r.Advance(999 * time.Millisecond)
			if after := digest(); after != before {
				addOdd("too early: %s instead of %s", after, before)
			}
			r.Advance(time.Millisecond)
		case "observe":
			o := observers[a.I("o")]
			prompt("observe", func() { o.cancel = client.ObserveStateChanged(o.ch) })
			if a.S("mode") == "read" {
				go o.read()
			}
		case "unobserve":
			prompt("unobserve", func() { observers[a.I("o")].cancel() })
		case "drain":
			go observers[a.I("o")].read()
		case "wait":
			w := waits[a.I("w")]
			wctx, c := context.WithCancel(context.Background())
			w.cancel = c
			w.mx.Lock()
			w.res = []string{"wait"}
			w.mx.Unlock()
			prompt("wait", func() {
				ch := client.WaitForState(wctx, states[a.S("t")])
				go func() {
					res := []string{}
					for err := range ch {
						if err == nil {
							res = append(res, "value")
						} else {
							res = append(res, "err")
						}
					}
					if len(res) == 0 {
						res = append(res, "nil")
					}
					w.mx.Lock()
					w.res = res
					w.mx.Unlock()
				}()
			})
		case "endwait":
			waits[a.I("w")].cancel()
		case "par":
			start := make(chan struct{})
			var wg sync.WaitGroup
			for _, x := range a.L("acts") {
				x := Act(x.(map[string]any))
				if x.S("a") == "endwait" && waits[x.I("w")].cancel == nil {
					panic("harness: endwait without wait")
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					jitter()
					do(x)
				}()
			}
			close(start)
			wg.Wait()
		default:
			panic("harness: client: unknown action " + a.S("a"))
		}
	}
	written := make([][]string, nconns)
	for i := range written {
		written[i] = []string{}
	}
	pull := func() {
		for i, c := range conns {
			w := c.TakeWrites()
			if i >= nconns {
				if len(w) > 0 {
					odd = append(odd, "writes to a foreign connection")
				}
				continue
			}
			if len(w) > 0 && len(written[i]) == 0 {
				what := "hs"
				if string(w[0]) != string(handshakeReq(proto)) {
					what = fmt.Sprintf("%q", w[0])
				}
				written[i] = append(written[i], what)
				w = w[1:]
			}
			ms, torn := decodeWrites(proto, w)
			if torn {
				written[i] = append(written[i], "torn")
			}
			for _, m := range ms {
				if m.Type == 7 {
					written[i] = append(written[i], "close")
				} else {
					written[i] = append(written[i], fmt.Sprintf("message %d", m.Type))
				}
			}
		}
	}
	class := func(err error) string {
		switch {
		case err == nil:
			return "nil"
		case errors.Is(err, errDial):
			return "dial"
		case errors.Is(err, context.Canceled):
			return "ctx"
		case strings.Contains(err.Error(), "backoff exceeded"):
			return "backoff"
		case strings.Contains(err.Error(), "go away"):
			return "bye"
		}
		return "other"
	}
	for _, a := range r.Acts {
		do(a)
		r.Settle()
		mx.Lock()
		pull()
		obs := clientObs{St: clientStates[client.State()], Err: []string{class(client.Err())}, Dials: dials, Conns: written,
			Obs: []clientObsObserver{}, Waits: [][]string{}, Stops: stops, Odd: odd}
		if !r.Cfg.B("reconn") && started {
			obs.Dials = 1
		}
		for _, o := range observers[1:] {
			o.mx.Lock()
			obs.Obs = append(obs.Obs, clientObsObserver{append([]string{}, o.got...), o.closed})
			o.mx.Unlock()
		}
		for _, w := range waits[1:] {
			w.mx.Lock()
			obs.Waits = append(obs.Waits, w.res)
			w.mx.Unlock()
		}
		r.Rec(a, obs)
		mx.Unlock()
	}
	// end everything
	close(answer)
	cancel()
	mx.Lock()
	cs := append([]*memConn(nil), conns...)
	mx.Unlock()
	for _, c := range cs {
		c.Close()
	}
	for _, w := range waits {
		if w.cancel != nil {
			w.cancel()
		}
	}
	for _, o := range observers {
		if o.cancel != nil {
			o.cancel()
		}
	}
	if r.Bubble {
		r.Advance(15 * time.Second)
	}
}
