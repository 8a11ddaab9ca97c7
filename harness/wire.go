package harness

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"sort"
	"time"
)

// Msg is a SignalR message in a protocol independent form.
type Msg struct {
	Type      int
	ID        string
	HasID     bool
	Target    string
	Args      []any
	StreamIds []string
	Item      any
	Result    any
	HasResult bool
	Error     string
	Allow     bool
	Raw       []byte
}

// encode encodes a message for the protocol "json" or "messagepack". It is written from the protocol
// specification and shares no code with the implementation.
func encode(proto string, m Msg) []byte {
	if m.Raw != nil {
		return m.Raw
	}
	if proto == "json" {
		return encodeJSON(m)
	}
	return encodeMP(m)
}

func encodeJSON(m Msg) []byte {
	o := map[string]any{"type": m.Type}
	if m.HasID || m.ID != "" {
		o["invocationId"] = m.ID
	}
	switch m.Type {
	case 1, 4:
		o["target"] = m.Target
		args := m.Args
		if args == nil {
			args = []any{}
		}
		o["arguments"] = args
		if len(m.StreamIds) > 0 {
			o["streamIds"] = m.StreamIds
		}
	case 2:
		o["item"] = m.Item
	case 3:
		if m.HasResult {
			o["result"] = m.Result
		}
		if m.Error != "" {
			o["error"] = m.Error
		}
	case 7:
		if m.Error != "" {
			o["error"] = m.Error
		}
		if m.Allow {
			o["allowReconnect"] = true
		}
	}
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	return append(b, 0x1e)
}

func encodeMP(m Msg) []byte {
	var b bytes.Buffer
	id := func() {
		if m.HasID || m.ID != "" {
			mpEncode(&b, m.ID)
		} else {
			mpEncode(&b, nil)
		}
	}
	switch m.Type {
	case 1, 4:
		n := 5
		if len(m.StreamIds) > 0 || m.Type == 1 {
			n = 6
		}
		b.WriteByte(0x90 | byte(n))
		mpEncode(&b, m.Type)
		b.WriteByte(0x80)
		id()
		mpEncode(&b, m.Target)
		args := m.Args
		if args == nil {
			args = []any{}
		}
		mpEncode(&b, args)
		if n == 6 {
			s := make([]any, len(m.StreamIds))
			for i := range m.StreamIds {
				s[i] = m.StreamIds[i]
			}
			mpEncode(&b, s)
		}
	case 2:
		b.WriteByte(0x94)
		mpEncode(&b, 2)
		b.WriteByte(0x80)
		id()
		mpEncode(&b, m.Item)
	case 3:
		n := 4
		if m.HasResult || m.Error != "" {
			n = 5
		}
		b.WriteByte(0x90 | byte(n))
		mpEncode(&b, 3)
		b.WriteByte(0x80)
		id()
		switch {
		case m.Error != "":
			mpEncode(&b, 1)
			mpEncode(&b, m.Error)
		case m.HasResult:
			mpEncode(&b, 3)
			mpEncode(&b, m.Result)
		default:
			mpEncode(&b, 2)
		}
	case 5:
		b.WriteByte(0x93)
		mpEncode(&b, 5)
		b.WriteByte(0x80)
		id()
	case 6:
		b.WriteByte(0x91)
		mpEncode(&b, 6)
	case 7:
		b.WriteByte(0x93)
		mpEncode(&b, 7)
		if m.Error == "" {
			mpEncode(&b, "")
		} else {
			mpEncode(&b, m.Error)
		}
		mpEncode(&b, m.Allow)
	}
	return mpFrame(b.Bytes())
}

// mpFrame adds the length prefix.
func mpFrame(body []byte) []byte {
	l := make([]byte, binary.MaxVarintLen64)
	n := binary.PutUvarint(l, uint64(len(body)))
	return append(l[:n:n], body...)
}

func mpEncode(b *bytes.Buffer, v any) {
	switch v := v.(type) {
	case nil:
		b.WriteByte(0xc0)
	case bool:
		if v {
			b.WriteByte(0xc3)
		} else {
			b.WriteByte(0xc2)
		}
	case int:
		mpInt(b, int64(v))
	case int64:
		mpInt(b, v)
	case uint64:
		b.WriteByte(0xcf)
		_ = binary.Write(b, binary.BigEndian, v)
	case float64:
		b.WriteByte(0xcb)
		_ = binary.Write(b, binary.BigEndian, math.Float64bits(v))
	case string:
		switch n := len(v); {
		case n < 32:
			b.WriteByte(0xa0 | byte(n))
		case n < 256:
			b.WriteByte(0xd9)
			b.WriteByte(byte(n))
		case n < 65536:
			b.WriteByte(0xda)
			_ = binary.Write(b, binary.BigEndian, uint16(n))
		default:
			b.WriteByte(0xdb)
			_ = binary.Write(b, binary.BigEndian, uint32(n))
		}
		b.WriteString(v)
	case []byte:
		switch n := len(v); {
		case n < 256:
			b.WriteByte(0xc4)
			b.WriteByte(byte(n))
		default:
			b.WriteByte(0xc5)
			_ = binary.Write(b, binary.BigEndian, uint16(n))
		}
		b.Write(v)
	case []any:
		if n := len(v); n < 16 {
			b.WriteByte(0x90 | byte(n))
		} else {
			b.WriteByte(0xdc)
			_ = binary.Write(b, binary.BigEndian, uint16(n))
		}
		for _, e := range v {
			mpEncode(b, e)
		}
	case map[string]any:
		if n := len(v); n < 16 {
			b.WriteByte(0x80 | byte(n))
		} else {
			b.WriteByte(0xde)
			_ = binary.Write(b, binary.BigEndian, uint16(n))
		}
		keys := make([]string, 0, len(v))
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			mpEncode(b, k)
			mpEncode(b, v[k])
		}
	case mpRaw:
		b.Write(v)
	default:
		panic(fmt.Sprintf("mpEncode %T", v))
	}
}

type mpRaw []byte

func mpInt(b *bytes.Buffer, v int64) {
	switch {
	case v >= 0 && v < 128:
		b.WriteByte(byte(v))
	case v < 0 && v >= -32:
		b.WriteByte(byte(v))
	case v >= math.MinInt8 && v <= math.MaxInt8:
		b.WriteByte(0xd0)
		b.WriteByte(byte(v))
	case v >= math.MinInt16 && v <= math.MaxInt16:
		b.WriteByte(0xd1)
		_ = binary.Write(b, binary.BigEndian, int16(v))
	case v >= math.MinInt32 && v <= math.MaxInt32:
		b.WriteByte(0xd2)
		_ = binary.Write(b, binary.BigEndian, int32(v))
	default:
		b.WriteByte(0xd3)
		_ = binary.Write(b, binary.BigEndian, v)
	}
}

var errShort = errors.New("short")

// mpTime is a decoded timestamp extension.
type mpTime time.Time

func mpDecode(b []byte) (v any, rest []byte, err error) {
	if len(b) == 0 {
		return nil, nil, errShort
	}
	c := b[0]
	b = b[1:]
	need := func(n int) bool { return len(b) >= n }
	be := func(n int) uint64 {
		var x uint64
		for i := 0; i < n; i++ {
			x = x<<8 | uint64(b[i])
		}
		return x
	}
	str := func(n int) (any, []byte, error) {
		if !need(n) {
			return nil, nil, errShort
		}
		return string(b[:n]), b[n:], nil
	}
	bin := func(n int) (any, []byte, error) {
		if !need(n) {
			return nil, nil, errShort
		}
		return append([]byte{}, b[:n]...), b[n:], nil
	}
	arr := func(n int) (any, []byte, error) {
		a := []any{}
		for i := 0; i < n; i++ {
			var e any
			var err error
			e, b, err = mpDecode(b)
			if err != nil {
				return nil, nil, err
			}
			a = append(a, e)
		}
		return a, b, nil
	}
	mp := func(n int) (any, []byte, error) {
		m := map[string]any{}
		for i := 0; i < n; i++ {
			var k, e any
			var err error
			k, b, err = mpDecode(b)
			if err != nil {
				return nil, nil, err
			}
			e, b, err = mpDecode(b)
			if err != nil {
				return nil, nil, err
			}
			m[fmt.Sprint(k)] = e
		}
		return m, b, nil
	}
	ext := func(n int) (any, []byte, error) {
		if !need(n + 1) {
			return nil, nil, errShort
		}
		typ := int8(b[0])
		d := b[1 : n+1]
		rest := b[n+1:]
		if typ == -1 {
			switch n {
			case 4:
				return mpTime(time.Unix(int64(binary.BigEndian.Uint32(d)), 0)), rest, nil
			case 8:
				x := binary.BigEndian.Uint64(d)
				return mpTime(time.Unix(int64(x&(1<<34-1)), int64(x>>34))), rest, nil
			case 12:
				return mpTime(time.Unix(int64(binary.BigEndian.Uint64(d[4:])), int64(binary.BigEndian.Uint32(d)))), rest, nil
			}
		}
		return fmt.Sprintf("ext(%d,%x)", typ, d), rest, nil
	}
	switch {
	case c < 0x80:
		return int64(c), b, nil
	case c >= 0xe0:
		return int64(int8(c)), b, nil
	case c >= 0xa0 && c < 0xc0:
		return str(int(c & 0x1f))
	case c >= 0x90 && c < 0xa0:
		return arr(int(c & 0xf))
	case c >= 0x80 && c < 0x90:
		return mp(int(c & 0xf))
	}
	sz := map[byte]int{0xcc: 1, 0xcd: 2, 0xce: 4, 0xcf: 8, 0xd0: 1, 0xd1: 2, 0xd2: 4, 0xd3: 8, 0xca: 4, 0xcb: 8,
		0xd9: 1, 0xda: 2, 0xdb: 4, 0xc4: 1, 0xc5: 2, 0xc6: 4, 0xdc: 2, 0xdd: 4, 0xde: 2, 0xdf: 4, 0xc7: 1, 0xc8: 2, 0xc9: 4}[c]
	if !need(sz) {
		return nil, nil, errShort
	}
	var x uint64
	if sz > 0 {
		x = be(sz)
		b = b[sz:]
	}
	switch c {
	case 0xc0:
		return nil, b, nil
	case 0xc2:
		return false, b, nil
	case 0xc3:
		return true, b, nil
	case 0xcc, 0xcd, 0xce:
		return int64(x), b, nil
	case 0xcf:
		if x > math.MaxInt64 {
			return x, b, nil
		}
		return int64(x), b, nil
	case 0xd0:
		return int64(int8(x)), b, nil
	case 0xd1:
		return int64(int16(x)), b, nil
	case 0xd2:
		return int64(int32(x)), b, nil
	case 0xd3:
		return int64(x), b, nil
	case 0xca:
		return float64(math.Float32frombits(uint32(x))), b, nil
	case 0xcb:
		return math.Float64frombits(x), b, nil
	case 0xd9, 0xda, 0xdb:
		return str(int(x))
	case 0xc4, 0xc5, 0xc6:
		return bin(int(x))
	case 0xdc, 0xdd:
		return arr(int(x))
	case 0xde, 0xdf:
		return mp(int(x))
	case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
		return ext(1 << (c - 0xd4))
	case 0xc7, 0xc8, 0xc9:
		return ext(int(x))
	}
	return nil, nil, fmt.Errorf("mp code %x", c)
}

// decodeFrames splits b into frames. rest is what is left.
func splitFrames(proto string, b []byte) (frames [][]byte, rest []byte) {
	for len(b) > 0 {
		if proto == "json" {
			i := bytes.IndexByte(b, 0x1e)
			if i < 0 {
				return frames, b
			}
			frames = append(frames, b[:i])
			b = b[i+1:]
		} else {
			n, l := binary.Uvarint(b)
			if l <= 0 || uint64(len(b)-l) < n {
				return frames, b
			}
			frames = append(frames, b[l:l+int(n)])
			b = b[l+int(n):]
		}
	}
	return frames, nil
}

// decode decodes one frame.
func decode(proto string, f []byte) (m Msg, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("malformed message %q: %v", f, r)
		}
	}()
	m.Raw = f
	if proto == "json" {
		var o map[string]json.RawMessage
		if err := json.Unmarshal(f, &o); err != nil {
			return m, err
		}
		get := func(k string, v any) {
			if raw, ok := o[k]; ok {
				d := json.NewDecoder(bytes.NewReader(raw))
				d.UseNumber()
				if e := d.Decode(v); e != nil && err == nil {
					err = fmt.Errorf("%s: %w", k, e)
				}
			}
		}
		get("type", &m.Type)
		_, m.HasID = o["invocationId"]
		get("invocationId", &m.ID)
		get("target", &m.Target)
		get("arguments", &m.Args)
		get("streamIds", &m.StreamIds)
		get("item", &m.Item)
		_, m.HasResult = o["result"]
		get("result", &m.Result)
		get("error", &m.Error)
		get("allowReconnect", &m.Allow)
		for i := range m.Args {
			m.Args[i] = normJSON(m.Args[i])
		}
		m.Item, m.Result = normJSON(m.Item), normJSON(m.Result)
		return m, err
	}
	v, rest, err := mpDecode(f)
	if err != nil {
		return m, err
	}
	if len(rest) > 0 {
		return m, fmt.Errorf("%d bytes after message", len(rest))
	}
	a := v.([]any)
	m.Type = int(a[0].(int64))
	if m.Type != 6 && m.Type != 7 {
		_ = a[1].(map[string]any)
	}
	id := func() {
		if a[2] != nil {
			m.ID, m.HasID = a[2].(string), true
		}
	}
	switch m.Type {
	case 1, 4:
		id()
		m.Target = a[3].(string)
		m.Args = a[4].([]any)
		if len(a) > 5 {
			for _, s := range a[5].([]any) {
				m.StreamIds = append(m.StreamIds, s.(string))
			}
		}
	case 2:
		id()
		m.Item = a[3]
	case 3:
		id()
		switch a[3].(int64) {
		case 1:
			m.Error = a[4].(string)
		case 3:
			m.HasResult, m.Result = true, a[4]
		}
	case 5:
		id()
	case 6:
		if len(a) != 1 {
			return m, errors.New("bad ping")
		}
	case 7:
		if a[1] != nil {
			m.Error = a[1].(string)
		}
		if len(a) > 2 {
			m.Allow = a[2].(bool)
		}
	default:
		return m, fmt.Errorf("type %v", m.Type)
	}
	return m, nil
}

// normJSON maps numbers to int64 or float64.
func normJSON(v any) any {
	switch v := v.(type) {
	case json.Number:
		if i, err := v.Int64(); err == nil {
			return i
		}
		f, _ := v.Float64()
		return f
	case []any:
		for i := range v {
			v[i] = normJSON(v[i])
		}
		return v
	case map[string]any:
		for k := range v {
			v[k] = normJSON(v[k])
		}
		return v
	}
	return v
}

// decodeWrites decodes what was written to a connection. Every write has to be exactly one frame, otherwise torn is set.
func decodeWrites(proto string, writes [][]byte) (msgs []Msg, torn bool) {
	var all []byte
	for _, w := range writes {
		fr, rest := splitFrames(proto, w)
		if len(fr) != 1 || len(rest) != 0 {
			torn = true
		}
		all = append(all, w...)
	}
	fr, rest := splitFrames(proto, all)
	if len(rest) != 0 {
		torn = true
	}
	for _, f := range fr {
		m, err := decode(proto, f)
		if err != nil {
			torn = true
			m.Type = -1
			m.Error = err.Error()
		}
		msgs = append(msgs, m)
	}
	return msgs, torn
}
