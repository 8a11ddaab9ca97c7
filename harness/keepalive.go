package harness

import (
	"context"
	"fmt"
	"io"
	"strings"
	"sync"
	"time"

	"github.com/philippseith/signalr"
)

func init() { drivers["keepalive"] = keepaliveDriver }

type aliveMethods struct {
	ctx   context.Context
	items <-chan string
}

func (m aliveMethods) Hello(k int) int { return k }
func (m aliveMethods) Quiet(int)       {}
func (m aliveMethods) Hang(int)        { <-m.ctx.Done() }
func (m aliveMethods) Up(ch <-chan string) {
	for range ch {
	}
}
func (m aliveMethods) Down() <-chan string { return m.items }

type aliveHub struct {
	signalr.Hub
	aliveMethods
}

type aliveReceiver struct {
	signalr.Receiver
	aliveMethods
}

type aliveObs struct {
	St  string   `json:"st"`
	W   []string `json:"w"`
	Err []string `json:"err"`
	Odd []string `json:"odd"`
}

func keepaliveDriver(r *Run) {
	proto, role := r.Cfg.S("proto"), r.Cfg.S("role")
	tick := time.Duration(r.Cfg.I("tick")) * time.Millisecond
	ctx, cancel := context.WithCancel(context.Background())
	items := make(chan string)
	m := aliveMethods{ctx, items}
	opts := append(quietOpts(), signalr.HandshakeTimeout(farAway), signalr.ChanReceiveTimeout(farAway),
		signalr.TimeoutInterval(time.Duration(r.Cfg.I("t"))*tick), signalr.KeepAliveInterval(time.Duration(r.Cfg.I("k"))*tick))
	conn := newMemConn(context.Background(), "conn")
	odd := []string{}
	var srv signalr.Server
	var client signalr.Client
	var err error
	var s *session
	if role == "server" {
		srv, err = signalr.NewServer(ctx, append(opts, signalr.HubFactory(func() signalr.HubInterface { return &aliveHub{aliveMethods: m} }))...)
		if err != nil {
			panic(err)
		}
		s = startServe(r, srv, conn, proto)
	} else {
		client, err = signalr.NewClient(ctx, append(opts, signalr.WithConnection(r.wire(conn)), signalr.TransferFormat(transferFormat(proto)),
			signalr.WithReceiver(&aliveReceiver{aliveMethods: m}))...)
		if err != nil {
			panic(err)
		}
		client.Start()
		s = &session{proto: proto, role: role, conn: conn, client: client}
	}
	s.handshake(r)
	// one upload and one download are open all the time
	s.send(Msg{Type: 1, ID: "up", HasID: true, Target: "Up", Args: []any{}, StreamIds: []string{"u"}})
	if role == "server" {
		s.send(Msg{Type: 4, ID: "down", HasID: true, Target: "Down", Args: []any{}})
	} else {
		go func() { client.PushStreams("push", items) }()
	}
	r.Settle()
	tries := func() (int, int) {
		conn.mx.Lock()
		defer conn.mx.Unlock()
		return conn.tries, conn.pending
	}
	if s.torn {
		odd = append(odd, "handshake")
	}
	before, _ := tries()
	send := func(k string) {
		var arg any = "note"
		switch k {
		case "big":
			arg = strings.Repeat("big", 20000)
		case "bad":
			arg = func() {}
		case "item":
			select {
			case items <- "item":
			case <-ctx.Done():
			}
			return
		}
		if role == "server" {
			srv.HubClients().All().Send("note", arg)
		} else {
			client.Send("note", arg)
		}
	}
	n := 0
	half := []byte{}
	recv := func(k string) {
		n++
		id := fmt.Sprint("c", n)
		switch k {
		case "ping":
			s.send(Msg{Type: 6})
		case "call":
			s.send(Msg{Type: 1, ID: id, HasID: true, Target: "Hello", Args: []any{n}})
		case "odd":
			s.send(Msg{Type: 1, ID: id, HasID: true, Target: "Unknown", Args: []any{n}})
		case "hang":
			s.send(Msg{Type: 1, ID: id, HasID: true, Target: "Hang", Args: []any{n}})
		case "notify":
			s.send(Msg{Type: 1, Target: "Quiet", Args: []any{n}})
		case "cancel":
			s.send(Msg{Type: 5, ID: id, HasID: true})
		case "item":
			s.send(Msg{Type: 2, ID: "u", HasID: true, Item: "item"})
		case "part":
			if len(half) > 0 {
				conn.Feed(half)
				half = nil
			} else {
				b := encode(proto, Msg{Type: 6})
				h := 1 + n%(len(b)-1)
				conn.Feed(b[:h])
				half = b[h:]
			}
		default:
			panic("harness: keepalive: unknown message " + k)
		}
	}
	rec := func(a Act) {
		after, pending := tries()
		o := aliveObs{St: "up", W: []string{}, Err: []string{}, Odd: odd}
		if after != before || pending > 0 && !s.ended() {
			o.W = append(o.W, "written")
		}
		before = after
		if s.ended() {
			o.St = "over"
			err := s.err
			if role == "client" {
				err = client.Err()
			}
			if err != nil {
				o.Err = append(o.Err, "error")
			}
		}
		conn.TakeWrites()
		r.Rec(a, o)
	}
	for _, a := range r.Acts {
		switch a.S("a") {
		case "tick":
			for i := 0; i < a.I("n"); i++ {
				r.Advance(tick)
				rec(Act{"a": "tick", "n": 1})
			}
			continue
		case "recv":
			recv(a.S("k"))
		case "send":
			go send(a.S("k"))
		case "both":
			var wg sync.WaitGroup
			for _, f := range []func(){func() { recv(a.S("r")) }, func() { go send(a.S("k")) }} {
				wg.Add(1)
				go func() {
					defer wg.Done()
					jitter()
					f()
				}()
			}
			wg.Wait()
		case "stall":
			conn.Stall()
		case "unstall":
			conn.Unstall()
		case "end":
			if a.S("how") == "eof" {
				conn.Drop(io.EOF)
			} else {
				s.send(Msg{Type: 7})
			}
		default:
			panic("harness: keepalive: unknown action " + a.S("a"))
		}
		r.Settle()
		rec(a)
	}
	s.cleanup()
	cancel()
	if r.Bubble {
		r.Advance(15 * time.Second)
	}
}
