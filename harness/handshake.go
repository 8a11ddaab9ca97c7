package harness

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"sync"
	"time"

	"github.com/philippseith/signalr"
)

func init() { drivers["handshake"] = handshakeDriver }

type handshakeState struct {
	mx        sync.Mutex
	ran       [][]string
	callbacks []string
	odd       []string
}

type handshakeHub struct {
	signalr.Hub
	s *handshakeState
}

func (h *handshakeHub) OnConnected(string) {
	h.s.mx.Lock()
	h.s.callbacks = append(h.s.callbacks, "connected")
	h.s.mx.Unlock()
}

func (h *handshakeHub) OnDisconnected(string) {
	h.s.mx.Lock()
	h.s.callbacks = append(h.s.callbacks, "disconnected")
	h.s.mx.Unlock()
}

func (s *handshakeState) run(k int) {
	s.mx.Lock()
	if k < 1 || k >= len(s.ran) {
		s.odd = append(s.odd, fmt.Sprintf("method %d", k))
	} else {
		s.ran[k] = append(s.ran[k], "ok")
	}
	s.mx.Unlock()
}

func (h *handshakeHub) Ring(k int) { h.s.run(k) }

type handshakeReceiver struct {
	signalr.Receiver
	s *handshakeState
}

func (h *handshakeReceiver) Ring(k int) { h.s.run(k) }

type handshakeObs struct {
	First     []string   `json:"first"`
	Ran       [][]string `json:"ran"`
	Out       [][]string `json:"out"`
	Err       [][]string `json:"err"`
	St        string     `json:"st"`
	Callbacks []string   `json:"callbacks"`
	Failed    bool       `json:"failed"`
	Odd       []string   `json:"odd"`
}

func handshakeDriver(r *Run) {
	ninv, nsend := r.Cfg.I("ninv"), r.Cfg.I("nsend")
	proto, role := r.Cfg.S("proto"), r.Cfg.S("role")
	variant := r.Cfg.I("variant")
	st := &handshakeState{ran: make([][]string, ninv+1), callbacks: []string{}, odd: []string{}}
	for i := range st.ran {
		st.ran[i] = []string{}
	}
	first := []string{}
	out, errs := make([][]string, nsend), make([][]string, nsend)
	for i := range out {
		out[i], errs[i] = []string{}, []string{}
	}
	ctx, cancel := context.WithCancel(context.Background())
	// pings must not come before the handshake either
	opts := append(quietOpts(), signalr.KeepAliveInterval(400*time.Millisecond), signalr.TimeoutInterval(farAway),
		signalr.HandshakeTimeout(time.Duration(r.Cfg.I("h"))*time.Second))
	conn := newMemConn(context.Background(), "conn")
	conn.together = variant%2 == 0
	var srv signalr.Server
	var client signalr.Client
	var err error
	var s *session

	everUp := false
	if role == "server" {
		srv, err = signalr.NewServer(ctx, append(opts, signalr.HubFactory(func() signalr.HubInterface { return &handshakeHub{s: st} }))...)
		if err != nil {
			panic(err)
		}
		s = startServe(r, srv, conn, proto)
	} else {
		client, err = signalr.NewClient(ctx, append(opts, signalr.WithConnection(r.wire(conn)), signalr.TransferFormat(transferFormat(proto)),
			signalr.WithReceiver(&handshakeReceiver{s: st}))...)
		if err != nil {
			panic(err)
		}
		states := make(chan signalr.ClientState, 100)
		stop := client.ObserveStateChanged(states)
		defer stop()
		go func() {
			for x := range states {
				if x == signalr.ClientConnected {
					st.mx.Lock()
					everUp = true
					st.mx.Unlock()
				}
			}
		}()
		s = &session{proto: proto, role: role, conn: conn, client: client}
	}
	r.Settle()
	pick := func(xs ...string) []byte { return []byte(xs[variant%len(xs)]) }
	begun := false
	token := func(t string, i int) []byte {
		whole := string(handshakeReq(proto))
		if role == "client" {
			whole = "{}\x1e"
		}
		half := 1 + variant%(len(whole)-1)
		switch t {
		case "ok":
			return []byte(whole)
		case "okx":
			if role == "client" {
				return pick("{ }\x1e", "{\"x\":[1]}\x1e", " {\"error\":\"\"}\x1e", "{\"error\":null}\x1e")
			}
			return pick("{\"version\":1, \"protocol\" : \""+proto+"\"}\x1e", "{\"x\":{},\"protocol\":\""+proto+"\",\"version\":1}\x1e",
				" {\"protocol\":\""+proto+"\",\"version\":1,\"y\":\"\\u001e\"} \x1e")
		case "error":
			if role == "client" {
				return pick("{\"error\":\"no\"}\x1e", "{\"x\":1,\"error\":\"not supported\"}\x1e")
			}
			return pick("{\"protocol\":\"nope\",\"version\":1}\x1e", "{\"protocol\":\"\\\"quoted\\u001e\\\"\",\"version\":1}\x1e", "{\"protocol\":\"\",\"version\":1}\x1e", "{\"protocol\":\""+proto+"x\",\"version\":1}\x1e")
		case "bad":
			if begun {
				return []byte("]]\x1e")
			}
			if role == "client" {
				return pick("{]\x1e", "\x1e", "[]\x1e", "\"x\"\x1e", "{\x1e", "{\"error\":{}}\x1e", "{}{}\x1e")
			}
			return pick("{]\x1e", "\x1e", "[]\x1e", "\"json\"\x1e", "{\"protocol\":\x1e", "{\"protocol\":1,\"version\":1}\x1e", "{\"protocol\":\""+proto+"\",\"version\":\"x\"}\x1e", "{\"protocol\":\""+proto+"\",\"version\":1\x1e")
		case "part":
			begun = true
			return []byte(whole[:half])
		case "rest":
			return []byte(whole[half:])
		case "inv":
			m := Msg{Type: 1, Target: "ring", Args: []any{i}}
			if variant%3 == 0 {
				m.ID, m.HasID = fmt.Sprintf("i%d", i), true
			}
			return encode(proto, m)
		}
		panic("harness: handshake: unknown token " + t)
	}
	ninvs := 0
	var do func(a Act)
	do = func(a Act) {
		switch a.S("a") {
		case "start":

			client.Start()
		case "chunk":
			var b []byte
			end := ""
			for _, x := range a.L("ts") {
				switch t := x.(string); t {
				case "eof", "err":
					end = t
				default:
					if t == "inv" {
						ninvs++
					}
					b = append(b, token(t, ninvs)...)
				}
			}
			switch end {
			case "eof":
				conn.FeedLast(b, io.EOF)
			case "err":
				conn.FeedLast(b, io.ErrUnexpectedEOF)
			default:
				conn.Feed(b)
			}
		case "send":
			j := a.I("j")
			if role == "server" {
				srv.HubClients().All().Send("note", j)
				return
			}
			ch := client.Send("note", j)
			go func() {
				for err := range ch {
					st.mx.Lock()
					if err != nil {
						errs[j-1] = append(errs[j-1], "err")
					} else {
						errs[j-1] = append(errs[j-1], "nil")
					}
					st.mx.Unlock()
				}
			}()
		case "tick":
			r.Advance(time.Second)
		case "stop":
			if role == "client" {
				go client.Stop()
			} else {
				cancel()
			}
		case "par":
			start := make(chan struct{})
			var wg sync.WaitGroup
			for _, x := range a.L("acts") {
				x := Act(x.(map[string]any))
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					jitter()
					do(x)
				}()
			}
			close(start)
			wg.Wait()
		default:
			panic("harness: handshake: unknown action " + a.S("a"))
		}
	}
	for _, a := range r.Acts {
		do(a)
		r.Settle()
		w := conn.TakeWrites()
		if len(w) > 0 && len(first) == 0 {
			switch x := string(w[0]); {
			case role == "client" && x == string(handshakeReq(proto)):
				first = append(first, "request")
			case role == "server" && x == "{}\x1e":
				first = append(first, "ok")
			case role == "server" && validRefusal(w[0]):
				first = append(first, "error")
			default:
				first = append(first, x)
			}
			w = w[1:]
		}
		s.absorb(w)
		for _, m := range s.pull() {
			if m.Type == 7 || m.Type == 6 || m.Type == 3 {
				if first[0] == "error" || role == "client" && !everUp {
					st.odd = append(st.odd, fmt.Sprintf("message %d without a handshake", m.Type))
				}
				continue
			}
			j := 0
			if len(m.Args) == 1 {
				x, _ := m.Args[0].(int64)
				j = int(x)
			}
			if m.Type != 1 || m.Target != "note" || j < 1 || j > nsend {
				st.odd = append(st.odd, fmt.Sprintf("message %d %q", m.Type, m.Target))
				continue
			}
			out[j-1] = append(out[j-1], "ok")
		}
		if s.torn {
			st.odd = append(st.odd, "torn")
		}
		st.mx.Lock()
		obs := handshakeObs{First: first, Ran: st.ran[1:], Out: out, Err: errs, Callbacks: append([]string{}, st.callbacks...), Odd: st.odd}
		sort.Strings(obs.Callbacks)
		if role == "server" {
			obs.St = "hs"
			if len(first) > 0 && first[0] == "ok" {
				obs.St = "up"
			}
			if s.ended() {
				obs.St = "over"
				obs.Failed = s.err != nil && len(st.callbacks) == 0
			}
		} else {
			obs.St = map[string]string{"created": "new", "connecting": "hs", "up": "up", "closed": "over"}[clientStates[client.State()]]
			obs.Failed = obs.St == "over" && client.Err() != nil && !everUp
		}
		r.Rec(a, obs)
		st.mx.Unlock()
	}

	s.cleanup()
	cancel()
	if r.Bubble {
		r.Advance(15 * time.Second)
	}
}

// validRefusal tells whether w is one frame with a JSON object which has a non-empty error
func validRefusal(w []byte) bool {
	fr, rest := splitFrames("json", w)
	if len(fr) != 1 || len(rest) != 0 {
		return false
	}
	var x struct {
		Error string `json:"error"`
	}
	return json.Unmarshal(fr[0], &x) == nil && x.Error != ""
}
