package harness

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"time"
)

// junkJSON are complete frames which are no valid message or unexpected.
var junkJSON = []string{
	``,
	` `,
	`null`,
	`{}`,
	`[]`,
	`{`,
	`"type"`,
	`{"type":0}`,
	`{"type":"1"}`,
	`{"type":99}`,
	`{"type":1e99}`,
	`{"type":-1,"invocationId":"junk1"}`,
	`{"type":1}`,
	`{"type":1,"target":null,"arguments":null,"invocationId":"junk1"}`,
	`{"type":1,"target":"val","arguments":7,"invocationId":"junk1"}`,
	`{"type":1,"target":"val","arguments":{"a":1},"invocationId":"junk1"}`,
	`{"type":1,"target":"val","arguments":[null],"invocationId":7}`,
	`{"type":1,"target":"","arguments":[1],"invocationId":"junk1"}`,
	`{"type":1,"target":"val","arguments":[{"a":[1,2,{"b":3}]}],"invocationId":"junk1"}`,
	`{"type":1,"target":"up","arguments":[],"streamIds":["junk9"],"invocationId":"junk1"}`,
	`{"type":1,"target":"up","arguments":[],"streamIds":["junk9","junk9","junk9"],"invocationId":"junk1"}`,
	`{"type":1,"target":"val","arguments":[1,2,3,4,5,6,7,8,9],"streamIds":["junk9","junk8"],"invocationId":"junk1"}`,
	`{"type":1,"target":"val","arguments":[99999999999999999999999],"invocationId":"junk1"}`,
	`{"type":4,"target":"nosuch","arguments":[],"invocationId":"junk1"}`,
	`{"type":4,"target":"val","arguments":"x","invocationId":""}`,
	`{"type":2,"invocationId":"junk1","item":1}`,
	`{"type":2,"item":null}`,
	`{"type":2,"invocationId":{},"item":1}`,
	`{"type":3,"invocationId":"junk1"}`,
	`{"type":3,"invocationId":"junk1","result":1,"error":"x"}`,
	`{"type":3}`,
	`{"type":3,"invocationId":"","error":5}`,
	`{"type":5}`,
	`{"type":5,"invocationId":"junk1"}`,
	`{"type":5,"invocationId":null}`,
	`{"type":7,"error":"bye"}`,
	`{"type":7,"error":5,"allowReconnect":"x"}`,
	`{"protocol":"json","version":1}`,
	"{\"type\":1,\"target\":\"v\xff\xfe\",\"arguments\":[],\"invocationId\":\"junk\xff\"}",
	strings.Repeat("[", 3000),
	strings.Repeat(`{"type":`, 1000),
	`{"type":1,"target":"val","arguments":` + strings.Repeat("[", 2000) + strings.Repeat("]", 2000) + `,"invocationId":"junk1"}`,
}

// junkMP are the bodies of complete MessagePack frames.
var junkMP = [][]byte{
	{},
	{0xc0},
	{0x90},
	{0x80},
	{0x91, 0x01},
	{0x91, 0xa1, 'x'},
	{0x92, 0x63, 0x80},
	{0x92, 0xff, 0x80},
	{0x95, 0x01, 0x80, 0xa5, 'j', 'u', 'n', 'k', '1', 0xc0, 0x90},
	{0x95, 0x01, 0x80, 0xa5, 'j', 'u', 'n', 'k', '1', 0xa3, 'v', 'a', 'l', 0xc0},
	{0x95, 0x01, 0x80, 0xa5, 'j', 'u', 'n', 'k', '1', 0xa3, 'v', 'a', 'l', 0xdd, 0xff, 0xff, 0xff, 0xff},
	{0x95, 0x01, 0x80, 0xa5, 'j', 'u', 'n', 'k', '1', 0xa3, 'v', 'a', 'l', 0x91, 0xdf, 0xff, 0xff, 0xff, 0xff},
	{0x95, 0x01, 0x80, 0xa5, 'j', 'u', 'n', 'k', '1', 0xa3, 'v', 'a', 'l', 0x91, 0x81, 0x90, 0x01},
	{0x95, 0x01, 0x80, 0xa5, 'j', 'u', 'n', 'k', '1', 0xa3, 'v', 'a', 'l', 0x91, 0xc6, 0xff, 0xff, 0xff, 0xff},
	{0x95, 0x01, 0x80, 0xa5, 'j', 'u', 'n', 'k', '1', 0xa3, 'v', 'a', 'l', 0x91, 0xdb, 0x7f, 0xff, 0xff, 0xff},
	{0x95, 0x01, 0x80, 0xa5, 'j', 'u', 'n', 'k', '1', 0xa3, 'v', 'a', 'l', 0x91, 0xc1},
	{0x95, 0x01, 0x80, 0xa5, 'j', 'u', 'n', 'k', '1', 0xa3, 'v', 'a', 'l', 0x91, 0xd6, 0xff, 0, 0, 0, 0},
	{0x95, 0x01, 0x80, 0xdb, 0xff, 0xff, 0xff, 0xff},
	{0x95, 0x01, 0xdf, 0xff, 0xff, 0xff, 0xff},
	{0x95, 0x01, 0xde, 0xff, 0xff, 0xa1, 'x'},
	{0x95, 0x01, 0x81, 0x90, 0x80, 0xa5, 'j', 'u', 'n', 'k', '1', 0xa3, 'v', 'a', 'l', 0x90},
	{0x95, 0x01, 0xc0, 0xa5, 'j', 'u', 'n', 'k', '1', 0xa3, 'v', 'a', 'l', 0x90},
	{0x96, 0x01, 0x80, 0xa5, 'j', 'u', 'n', 'k', '1', 0xa3, 'v', 'a', 'l', 0x90, 0xdd, 0xff, 0xff, 0xff, 0xff},
	{0x96, 0x01, 0x80, 0xa5, 'j', 'u', 'n', 'k', '1', 0xa3, 'v', 'a', 'l', 0x90, 0x91, 0x01},
	{0x96, 0x01, 0x80, 0xa5, 'j', 'u', 'n', 'k', '1', 0xa2, 'u', 'p', 0x90, 0x91, 0xa5, 'j', 'u', 'n', 'k', '9'},
	{0x9f, 0x01, 0x80},
	{0xdc, 0xff, 0xff, 0x01, 0x80},
	{0xdd, 0xff, 0xff, 0xff, 0xff, 0x01, 0x80},
	{0x94, 0x02, 0x80, 0xa5, 'j', 'u', 'n', 'k', '1', 0x01},
	{0x94, 0x02, 0x80, 0xc0, 0x01},
	{0x93, 0x02, 0x80, 0xa5, 'j', 'u', 'n', 'k', '1'},
	{0x94, 0x03, 0x80, 0xa5, 'j', 'u', 'n', 'k', '1', 0x02},
	{0x95, 0x03, 0x80, 0xa5, 'j', 'u', 'n', 'k', '1', 0x03, 0x01},
	{0x94, 0x03, 0x80, 0xa5, 'j', 'u', 'n', 'k', '1', 0x03},
	{0x94, 0x03, 0x80, 0xa5, 'j', 'u', 'n', 'k', '1', 0x09},
	{0x94, 0x03, 0x80, 0xa5, 'j', 'u', 'n', 'k', '1', 0xc0},
	{0x93, 0x05, 0x80, 0xa5, 'j', 'u', 'n', 'k', '1'},
	{0x93, 0x05, 0x80, 0xc0},
	{0x92, 0x05, 0x80},
	{0x92, 0x06, 0x80},
	{0x92, 0x07, 0xc0},
	{0x93, 0x07, 0xa1, 'x', 0x07},
	append([]byte{0x95, 0x01, 0x80, 0xa5, 'j', 'u', 'n', 'k', '1', 0xa3, 'v', 'a', 'l'}, bytes.Repeat([]byte{0x91}, 3000)...),
}

// NJunk is the number of kinds of junk.
const NJunk = 43

// junk returns one complete frame.
func junk(proto string, kind int) []byte {
	if proto == "json" {
		return append([]byte(junkJSON[kind%len(junkJSON)]), 0x1e)
	}
	return mpFrame(junkMP[kind%len(junkMP)])
}

var goodInvocations = []Msg{
	{Type: 1, ID: "junk1", Target: "val", Args: []any{1}},
	{Type: 1, ID: "junk2", Target: "panic", Args: []any{1}},
	{Type: 4, ID: "junk3", Target: "chan", Args: []any{1}},
	{Type: 4, ID: "junk4", Target: "chan", Args: []any{2}},
	{Type: 1, ID: "junk5", Target: "up", Args: []any{1}, StreamIds: []string{"junk6"}},
	{Type: 2, ID: "junk6", Item: "x"},
	{Type: 3, ID: "junk6"},
	{Type: 1, ID: "junk7", Target: "up2", Args: []any{1}, StreamIds: []string{"junk8", "junk9"}},
	{Type: 2, ID: "junk8", Item: "x"},
	{Type: 2, ID: "junk9", Item: 5},
	{Type: 5, ID: "junk3"},
	{Type: 6},
}

// hostile plays one hostile connection. kind < 100: junk before, instead of or after the handshake; otherwise valid
// messages with random changes.
func hostile(r *Run, c *memConn, proto string, kind int) {
	if kind < 100 {
		switch kind % 4 {
		case 0:
			c.Feed(junk(proto, kind))
		case 1:
			c.Feed(append(handshakeReq(proto), junk(proto, kind)...))
		case 2:
			c.Feed(handshakeReq(proto))
			r.Settle()
			c.Feed(junk(proto, kind)[1:])
			r.Settle()
			c.Feed(junk(proto, kind+1))
		case 3:
			c.Feed(handshakeReq(proto))
			r.Settle()
			j := junk(proto, kind)
			c.Feed(j[:len(j)/2])
		}
		r.Settle()
		if kind%2 == 0 {
			c.Drop(io.EOF)
		}
		return
	}
	rnd := rand.New(rand.NewSource(int64(kind)))
	var b []byte
	for i := 0; i < 12; i++ {
		f := encode(proto, goodInvocations[rnd.Intn(len(goodInvocations))])
		if rnd.Intn(6) == 0 {
			f = junk(proto, rnd.Intn(NJunk))
		}
		for n := rnd.Intn(3); n > 0 && len(f) > 0; n-- {
			p := rnd.Intn(len(f))
			switch rnd.Intn(5) {
			case 0:
				f[p] = byte(rnd.Intn(256))
			case 1:
				f = append(f[:p:p], f[p+1:]...)
			case 2:
				f = append(f[:p:p], append([]byte{byte(rnd.Intn(256))}, f[p:]...)...)
			case 3:
				f = f[:p]
			case 4:
				f = append(f[:p:p], append([]byte(fmt.Sprint(rnd.Int63())), f[p:]...)...)
			}
		}
		b = append(b, f...)
	}
	hs := handshakeReq(proto)
	if rnd.Intn(4) == 0 {
		hs[rnd.Intn(len(hs))] = byte(rnd.Intn(256))
	}
	c.Feed(hs)
	for len(b) > 0 {
		n := rnd.Intn(len(b)) + 1
		c.Feed(b[:n])
		b = b[n:]
	}
	r.Settle()
	if rnd.Intn(2) == 0 {
		c.Drop(io.EOF)
	}
	if rnd.Intn(4) == 0 {
		r.Advance(time.Minute)
	}
	r.Settle()
}
