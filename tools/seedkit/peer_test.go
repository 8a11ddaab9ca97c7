package signalr

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"net"
	"testing"
	"time"
)

type demoNoLog struct{}

func (demoNoLog) Log(...interface{}) error { return nil }

// demoPeer speaks the JSON protocol over an in-memory connection.
type demoPeer struct {
	t    *testing.T
	c    net.Conn
	msgs chan map[string]interface{}
	done chan error // result of Serve
}

func demoOpts(o ...func(Party) error) []func(Party) error {
	return append([]func(Party) error{Logger(demoNoLog{}, false)}, o...)
}

type demoConn struct {
	Connection
	id string
}

func (d *demoConn) ConnectionID() string      { return d.id }
func (d *demoConn) SetConnectionID(id string) { d.id = id }

// demoServe connects a new peer to srv and completes the handshake
func demoServe(t *testing.T, srv Server, id string) *demoPeer {
	a, b := net.Pipe()
	p := demoPeerOn(t, b)
	go func() { p.done <- srv.Serve(&demoConn{NewNetConnection(context.Background(), a), id}) }()
	p.send(`{"protocol":"json","version":1}`)
	if m := p.next(5 * time.Second); m == nil || len(m) != 0 {
		t.Fatalf("handshake response %v", m)
	}
	return p
}

func demoPeerOn(t *testing.T, c net.Conn) *demoPeer {
	p := &demoPeer{t: t, c: c, msgs: make(chan map[string]interface{}, 100000), done: make(chan error, 1)}
	go func() {
		defer close(p.msgs)
		r := bufio.NewReaderSize(c, 1<<20)
		for {
			s, err := r.ReadString(0x1e)
			if err != nil {
				return
			}
			m := map[string]interface{}{}
			if json.Unmarshal([]byte(s[:len(s)-1]), &m) == nil && m["type"] != float64(6) {
				p.msgs <- m
			}
		}
	}()
	return p
}

func (p *demoPeer) send(format string, a ...interface{}) {
	_ = p.c.SetWriteDeadline(time.Now().Add(10 * time.Second))
	_, _ = p.c.Write([]byte(fmt.Sprintf(format, a...) + "\x1e"))
}

// next returns the next message which is no ping, nil if there is none in time or the connection ended
func (p *demoPeer) next(d time.Duration) map[string]interface{} {
	select {
	case m := <-p.msgs:
		return m
	case <-time.After(d):
		return nil
	}
}

// all returns the messages received until nothing arrives for d
func (p *demoPeer) all(d time.Duration) (res []map[string]interface{}) {
	for {
		m := p.next(d)
		if m == nil {
			return res
		}
		res = append(res, m)
	}
}
