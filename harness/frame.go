package harness

import (
	"context"
	"fmt"
	"io"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/philippseith/signalr"
)

func init() { drivers["frame"] = frameDriver }

// frameState is what methods and driver share.
type frameState struct {
	mx    sync.Mutex
	pads  map[int]string
	ran   [][]string
	items []string
	odd   []string
}

func (f *frameState) run(k int, pad string) {
	f.mx.Lock()
	defer f.mx.Unlock()
	want, ok := f.pads[k]
	switch {
	case !ok || k < 1 || k >= len(f.ran):
		f.odd = append(f.odd, fmt.Sprintf("method %d runs", k))
	case pad != want:
		f.ran[k] = append(f.ran[k], fmt.Sprintf("altered: %d instead of %d characters", len(pad), len(want)))
	default:
		f.ran[k] = append(f.ran[k], "ok")
	}
}

type frameMethods struct{ f *frameState }

func (m frameMethods) Echo(k int, pad string) string {
	m.f.run(k, pad)
	return pad
}

func (m frameMethods) Up(k int, pad string, ch <-chan string) {
	m.f.run(k, pad)
	for s := range ch {
		var j int
		_, _ = fmt.Sscanf(s, "u%d:", &j)
		m.f.mx.Lock()
		ev := fmt.Sprint(j)
		if m.f.pads[j] != s {
			ev = fmt.Sprintf("altered item: %d", j)
		}
		m.f.items = append(m.f.items, ev)
		m.f.mx.Unlock()
	}
}

func (m frameMethods) Hello(k int) int { return k }

type frameHub struct {
	signalr.Hub
	frameMethods
}

type frameReceiver struct {
	signalr.Receiver
	frameMethods
}

type frameObs struct {
	Ran   [][]string `json:"ran"`
	Ans   [][]string `json:"ans"`
	Items []string   `json:"items"`
	St    string     `json:"st"`
	Notes int        `json:"notes"`
	Odd   []string   `json:"odd"`
}

// special is text which is likely to be mistaken for the end or the begin of something
const special = "\x1e{}\x00\x01\x1e\"\\\u00e4\u4e16\U0001F600\u2028[]\x7f\x1e"

// sized builds a message with exactly size bytes (without the separator or length), or, when size is 0, a small one
func sized(proto string, size, limit int, build func(pad string) Msg) (Msg, string) {
	measure := func(pad string) int {
		fr, _ := splitFrames(proto, encode(proto, build(pad)))
		return len(fr[0])
	}
	pad := special
	if measure(pad) > limit || size > 0 && measure(pad) > size {
		pad = ""
	}
	if size < measure(pad) {
		return build(pad), pad
	}
	for {
		l := measure(pad)
		if l == size {
			return build(pad), pad
		}
		if l > size {
			// lengths jump with the size of the string header
			pad = pad[:len(pad)-1]
			if measure(pad) < size {
				return build(pad), pad
			}
			continue
		}
		pad += strings.Repeat("x", size-l)
	}
}

func frameDriver(r *Run) {
	n := r.Cfg.I("nmsg")
	p := r.Cfg.I("p")
	proto, role := r.Cfg.S("proto"), r.Cfg.S("role")
	max := r.Cfg.I("max")
	rnd := rand.New(rand.NewPCG(uint64(r.Cfg.I("seed")), 1))
	f := &frameState{pads: map[int]string{}, ran: make([][]string, n+1), items: []string{}, odd: []string{}}
	ans := make([][]string, n+1)
	for i := range ans {
		f.ran[i], ans[i] = []string{}, []string{}
	}
	ctx, cancel := context.WithCancel(context.Background())
	opts := append(longOpts(), signalr.MaximumReceiveMessageSize(uint(max)), signalr.HandshakeTimeout(farAway))
	conn := newMemConn(context.Background(), "conn")
	conn.together = r.Cfg.B("together")
	var srv signalr.Server
	var client signalr.Client
	var err error
	var s, other *session
	hs := handshakeReq(proto)
	if role == "server" {
		srv, err = signalr.NewServer(ctx, append(opts, signalr.HubFactory(func() signalr.HubInterface { return &frameHub{frameMethods: frameMethods{f}} }))...)
		if err != nil {
			panic(err)
		}
		other = startServe(r, srv, newMemConn(context.Background(), "other"), proto)
		other.handshake(r)
		s = startServe(r, srv, conn, proto)
	} else {
		hs = []byte("{}\x1e")
		client, err = signalr.NewClient(ctx, append(opts, signalr.WithConnection(r.wire(conn)), signalr.TransferFormat(transferFormat(proto)),
			signalr.WithReceiver(&frameReceiver{frameMethods: frameMethods{f}}))...)
		if err != nil {
			panic(err)
		}
		client.Start()
		r.Settle()
		s = &session{proto: proto, role: role, conn: conn, client: client}
		if w := conn.TakeWrites(); len(w) != 1 || string(w[0]) != string(handshakeReq(proto)) {
			f.odd = append(f.odd, "handshake")
		}
	}
	shook := false // the server answered the handshake
	notePad := ""
	notes := 0
	// the message under way
	var cur []byte
	var bounds []int // piece j ends at bounds[j]
	pos := 0         // pieces sent
	begin := func(b []byte) {
		cur, pos = b, 0
		bounds = make([]int, p)
		l := len(b)
		switch r.Cfg.S("cut") {
		case "even":
			for j := range bounds {
				bounds[j] = (j + 1) * l / p
			}
		case "ends":
			for j := range bounds {
				if j < p/2 {
					bounds[j] = min(j+1, l)
				} else {
					bounds[j] = l - min(p-1-j, l-1)
				}
			}
		default:
			for j := range bounds {
				bounds[j] = 1 + rnd.IntN(l)
			}
		}
		for j := range bounds {
			bounds[j] = min(bounds[j], l-1)
		}
		sort.Ints(bounds)
		bounds[p-1] = l
	}
	take := func(pieces int) []byte {
		from := 0
		if pos > 0 {
			from = bounds[pos-1]
		}
		pos += pieces
		return cur[from:bounds[pos-1]]
	}
	begin(hs)
	count := 0
	up := ""
	message := func(k, z string) []byte {
		count++
		i := count
		size := 0
		switch z {
		case "m":
			size = min(max*2/3, 40+rnd.IntN(max))
		case "x": // just within the limit, whatever belongs to the size
			size = max - 1
			if proto == "messagepack" {
				size = max - len(mpFrame(make([]byte, max))) + max
			}
		case "o":
			size = max + 1 + rnd.IntN(3)
		case "b":
			size = max*2 + rnd.IntN(2*max)
		}
		var m Msg
		switch k {
		case "ping":
			// the size of a ping is what it is
			f.mx.Lock()
			f.pads[i] = ""
			f.mx.Unlock()
			if z == "o" || z == "b" {
				m, _ = sized(proto, size, max, func(pad string) Msg { return Msg{Type: 1, Target: "Echo", Args: []any{i, pad}} })
			} else {
				m = Msg{Type: 6}
			}
		case "inv", "up", "item":
			build := func(pad string) Msg {
				if k == "item" {
					return Msg{Type: 2, ID: up, HasID: true, Item: fmt.Sprintf("u%d:%s", i, pad)}
				}
				m := Msg{Type: 1, ID: fmt.Sprintf("c%d", i), HasID: true, Target: "Echo", Args: []any{i, pad}}
				if k == "up" {
					m.Target = "Up"
					m.StreamIds = []string{fmt.Sprintf("s%d", i)}
				}
				return m
			}
			if k == "up" {
				up = fmt.Sprintf("s%d", i)
			}
			var pad string
			m, pad = sized(proto, size, max, build)
			if k == "item" {
				pad = fmt.Sprintf("u%d:%s", i, pad)
			}
			f.mx.Lock()
			f.pads[i] = pad
			f.mx.Unlock()
		}
		return encode(proto, m)
	}
	pull := func() {
		w := conn.TakeWrites()
		if role == "server" && len(w) > 0 && !shook {
			shook = true
			if string(w[0]) != "{}\x1e" {
				f.odd = append(f.odd, fmt.Sprintf("handshake response %q", w[0]))
			}
			w = w[1:]
		}
		s.absorb(w)
		for _, m := range s.pull() {
			var i int
			_, _ = fmt.Sscanf(m.ID, "c%d", &i)
			switch {
			case m.Type == 7 || m.Type == 6:
			case m.Type == 3 && i >= 1 && i <= n && m.ID == fmt.Sprintf("c%d", i):
				switch {
				case m.Error != "":
					ans[i] = append(ans[i], "error")
				case m.Result != f.pads[i]:
					ans[i] = append(ans[i], "altered")
				default:
					ans[i] = append(ans[i], "ok")
				}
			case m.Type == 3 && strings.HasPrefix(m.ID, "s"):
			case m.Type == 1 && strings.EqualFold(m.Target, "note"):
				if len(m.Args) != 1 || m.Args[0] != notePad {
					f.odd = append(f.odd, "altered note")
				}
				notes++
			default:
				f.odd = append(f.odd, fmt.Sprintf("message %d %q %q", m.Type, m.ID, m.Target))
			}
		}
		if s.torn {
			f.odd = append(f.odd, "torn")
		}
	}
	for step, a := range r.Acts {
		switch a.S("a") {
		case "chunk":
			var b []byte
			if k := a.I("fin"); k > 0 {
				b = append(b, take(k)...)
			}
			for _, x := range a.L("ms") {
				m := Act(x.(map[string]any))
				b = append(b, message(m.S("k"), m.S("z"))...)
			}
			if t := Act(a["tail"].(map[string]any)); t.S("k") != "none" {
				begin(message(t.S("k"), t.S("z")))
				b = append(b, take(p-t.I("left"))...)
			}
			if a.B("eof") {
				conn.FeedLast(b, io.EOF)
			} else {
				conn.Feed(b)
			}
		case "eof":
			conn.FeedLast(nil, io.EOF)
		case "notes":
			notePad = special + strings.Repeat("n", 300)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := 0; i < a.I("n"); i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					jitter()
					if role == "server" {
						srv.HubClients().All().Send("note", notePad)
					} else {
						client.Send("note", notePad)
					}
				}()
			}
			close(start)
			wg.Wait()
		default:
			panic("harness: frame: unknown action " + a.S("a"))
		}
		r.Settle()
		pull()
		if other != nil {
			// nothing of this may disturb another connection
			other.send(Msg{Type: 1, ID: fmt.Sprintf("o%d", step), HasID: true, Target: "hello", Args: []any{step}})
			r.Settle()
			ok := false
			for _, m := range other.pull() {
				ok = ok || m.Type == 3 && m.ID == fmt.Sprintf("o%d", step) && m.Error == "" && m.Result == int64(step)
			}
			if !ok {
				f.odd = append(f.odd, "the other connection is not answered")
			}
		}
		st := "hs"
		if role == "server" && shook || role == "client" && client.State() == signalr.ClientConnected {
			st = "up"
		}
		if s.ended() {
			st = "ended"
		}
		f.mx.Lock()
		r.Rec(a, frameObs{f.ran[1:], ans[1:], f.items, st, notes, f.odd})
		f.mx.Unlock()
	}
	s.cleanup()
	if other != nil {
		other.cleanup()
	}
	cancel()
	if r.Bubble {
		r.Advance(15 * time.Second)
	}
}
