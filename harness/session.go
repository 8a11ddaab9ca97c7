package harness

import (
	"context"
	"fmt"
	"io"
	"time"

	"github.com/philippseith/signalr"
)

// session is one connection between the code under test (a server or a client) and the driver playing the peer.
type session struct {
	proto  string
	role   string // role of the code under test: "server" or "client"
	conn   *memConn
	ctx    context.Context
	cancel context.CancelFunc
	server signalr.Server
	client signalr.Client
	done   chan struct{} // closed when Serve returned
	err    error
	msgs   []Msg
	torn   bool
}

func transferFormat(proto string) signalr.TransferFormatType {
	if proto == "json" {
		return "Text"
	}
	return "Binary"
}

// quietOpts are options every driver uses.
func quietOpts() []func(signalr.Party) error {
	return []func(signalr.Party) error{signalr.Logger(nolog{}, false)}
}

const farAway = 1000 * time.Hour

// longOpts switch off everything that depends on time.
func longOpts() []func(signalr.Party) error {
	return append(quietOpts(), signalr.TimeoutInterval(farAway), signalr.KeepAliveInterval(farAway))
}

func handshakeReq(proto string) []byte {
	return []byte(fmt.Sprintf("{\"protocol\":\"%s\",\"version\":1}\x1e", proto))
}

// startServer serves conn on a new goroutine and completes the handshake.
func startServe(r *Run, srv signalr.Server, conn *memConn, proto string) *session {
	s := &session{proto: proto, role: "server", conn: conn, server: srv, done: make(chan struct{})}
	wired := r.wire(conn)
	go func() {
		s.err = srv.Serve(wired)
		close(s.done)
	}()
	return s
}

func (s *session) handshake(r *Run) {
	if s.role == "server" {
		s.conn.Feed(handshakeReq(s.proto))
		r.Settle()
		w := s.conn.TakeWrites()
		if len(w) == 0 || string(w[0]) != "{}\x1e" {
			s.torn = true
		} else {
			s.absorb(w[1:])
		}
	} else {
		r.Settle()
		w := s.conn.TakeWrites()
		if len(w) != 1 {
			s.torn = true
		}
		s.conn.Feed([]byte("{}\x1e"))
		r.Settle()
	}
}

func (s *session) absorb(w [][]byte) {
	m, torn := decodeWrites(s.proto, w)
	s.msgs = append(s.msgs, m...)
	s.torn = s.torn || torn
}

// pull collects what was written since the last call.
func (s *session) pull() []Msg {
	s.absorb(s.conn.TakeWrites())
	m := s.msgs
	s.msgs = nil
	return m
}

func (s *session) send(ms ...Msg) {
	var b []byte
	for _, m := range ms {
		b = append(b, encode(s.proto, m)...)
	}
	s.conn.Feed(b)
}

func (s *session) ended() bool {
	if s.role == "client" {
		return s.client.State() == signalr.ClientClosed
	}
	select {
	case <-s.done:
		return true
	default:
		return false
	}
}

// cleanup ends everything so that the bubble can end.
func (s *session) cleanup() {
	s.conn.Drop(io.EOF)
	if s.cancel != nil {
		s.cancel()
	}
	s.conn.Close()
}
