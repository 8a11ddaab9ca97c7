package harness

import (
	"context"
	"encoding/base64"
	"fmt"
	"io"
	"math"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/philippseith/signalr"
)

func init() { drivers["values"] = valuesDriver }

// The types of spec/Values.tla

type (
	Level string
	Kind  int32
	Flat  struct {
		A int
		B string
		C bool
		D float64
	}
	Opt struct {
		P *int           `json:"p,omitempty"`
		S []string       `json:"s,omitempty"`
		M map[string]int `json:"m,omitempty"`
		T string         `json:"t,omitempty"`
		N int            `json:",omitempty"`
		F *Flat          `json:"f,omitempty"`
	}
	Embed struct {
		Flat
		X int
		Y string
	}
	Mix struct {
		T time.Time
		Y []byte
		F Flat
		P *Flat
		L []Flat
		M map[string]Flat
		A any
	}
	Tagged struct {
		Alpha int     `json:"beta"`
		Beta  string  `json:"alpha"`
		Gamma []int   `json:"g_1"`
		Delta *string `json:"Δ"`
	}
)

// atomText are the texts behind the names of strings
var atomText = map[string]string{
	"empty": "", "a": "a", "json": "{\"a\":[1,\"x\"]}\\", "rs": "x\x1ey\x1e", "uni": "ä世\U0001F600\u2028", "ctl": "\x01\t\r\n\x7f",
	"html": "<a href='x'>&amp;</a>", "nul": "\x00a\x00", "long": strings.Repeat("long text ", 400), "number": "42",
}
var atomBytes = map[string][]byte{"0": {}, "one": {0}, "all": allBytes(), "text": []byte("text")}

func allBytes() []byte {
	b := make([]byte, 256)
	for i := range b {
		b[i] = byte(i)
	}
	return b
}

var atomTime = map[string]time.Time{
	"zero": {}, "epoch": time.Unix(0, 0).UTC(), "nano": time.Date(2024, 2, 29, 23, 59, 59, 123456789, time.UTC),
	"zone": time.Date(2021, 7, 1, 12, 0, 0, 0, time.FixedZone("", 5*3600+1800)), "far": time.Date(2262, 1, 2, 3, 4, 5, 0, time.UTC),
	"milli": time.Date(1969, 12, 31, 1, 2, 3, 500000000, time.UTC),
}
var atomAny = map[string]any{
	"nil": nil, "true": true, "text": "text", "empty": "", "number": 42, "list": []any{1, "a", nil, []any{}}, "map": map[string]any{"a": 1, "uni": "x"},
	"deep": map[string]any{"x": []any{map[string]any{"y": nil, "z": []any{true, 1.5}}}},
}

func atomInt(t reflect.Type, a string) (int64, bool) {
	bits := uint(t.Bits())
	switch a {
	case "0":
		return 0, true
	case "1":
		return 1, true
	case "-1":
		return -1, true
	case "100":
		return 100, true
	case "max":
		return 1<<(bits-1) - 1, true
	case "min":
		return -1 << (bits - 1), true
	}
	return 0, false
}

func atomUint(t reflect.Type, a string) (uint64, bool) {
	switch a {
	case "0":
		return 0, true
	case "1":
		return 1, true
	case "200":
		return 200, true
	case "max":
		return math.MaxUint64 >> (64 - uint(t.Bits())), true
	}
	return 0, false
}

func atomFloat(t reflect.Type, a string) (float64, bool) {
	single := t.Bits() == 32
	switch a {
	case "0":
		return 0, true
	case "1":
		return 1, true
	case "-1.5":
		return -1.5, true
	case "0.1":
		if single {
			return float64(float32(0.1)), true
		}
		return 0.1, true
	case "max":
		if single {
			return math.MaxFloat32, true
		}
		return math.MaxFloat64, true
	case "small":
		if single {
			return math.SmallestNonzeroFloat32, true
		}
		return math.SmallestNonzeroFloat64, true
	}
	return 0, false
}

var (
	intAtoms   = []string{"0", "1", "-1", "max", "min", "100"}
	uintAtoms  = []string{"0", "1", "max", "200"}
	floatAtoms = []string{"0", "1", "-1.5", "max", "small", "0.1"}
)

var timeType = reflect.TypeFor[time.Time]()

// build makes the value of the atoms
func build(v reflect.Value, atoms []string) []string {
	t := v.Type()
	a, rest := "", atoms
	if t.Kind() != reflect.Struct && t.Kind() != reflect.Array || t == timeType {
		a, rest = atoms[0], atoms[1:]
	}
	bad := func() { panic(fmt.Sprintf("harness: values: atom %q for %v", a, t)) }
	switch {
	case t == timeType:
		x, ok := atomTime[a]
		if !ok {
			bad()
		}
		v.Set(reflect.ValueOf(x))
	case t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8:
		if a != "null" {
			x, ok := atomBytes[a]
			if !ok {
				bad()
			}
			v.SetBytes(append([]byte{}, x...))
		}
	default:
		switch t.Kind() {
		case reflect.Bool:
			v.SetBool(a == "true")
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			x, ok := atomInt(t, a)
			if !ok {
				bad()
			}
			v.SetInt(x)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			x, ok := atomUint(t, a)
			if !ok {
				bad()
			}
			v.SetUint(x)
		case reflect.Float32, reflect.Float64:
			x, ok := atomFloat(t, a)
			if !ok {
				bad()
			}
			v.SetFloat(x)
		case reflect.String:
			x, ok := atomText[a]
			if !ok {
				bad()
			}
			v.SetString(x)
		case reflect.Interface:
			x, ok := atomAny[a]
			if !ok {
				bad()
			}
			if x != nil {
				v.Set(reflect.ValueOf(x))
			}
		case reflect.Pointer:
			if a == "to" {
				v.Set(reflect.New(t.Elem()))
				rest = build(v.Elem(), rest)
			}
		case reflect.Slice:
			if a != "null" {
				n := int(a[0] - '0')
				v.Set(reflect.MakeSlice(t, n, n))
				for i := 0; i < n; i++ {
					rest = build(v.Index(i), rest)
				}
			}
		case reflect.Map:
			if a != "null" {
				v.Set(reflect.MakeMap(t))
				for i := 0; i < int(a[0]-'0'); i++ {
					k, e := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
					rest = build(k, rest)
					rest = build(e, rest)
					v.SetMapIndex(k, e)
				}
			}
		case reflect.Array:
			for i := 0; i < t.Len(); i++ {
				rest = build(v.Index(i), rest)
			}
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				rest = build(v.Field(i), rest)
			}
		default:
			bad()
		}
	}
	return rest
}

// normal is a value without the type of its numbers
func normal(x any) any {
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return float64(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return float64(v.Uint())
	case reflect.Float32, reflect.Float64:
		return v.Float()
	case reflect.Slice:
		l := []any{}
		for i := 0; i < v.Len(); i++ {
			l = append(l, normal(v.Index(i).Interface()))
		}
		return l
	case reflect.Map:
		m := map[string]any{}
		for _, k := range v.MapKeys() {
			m[fmt.Sprint(k.Interface())] = normal(v.MapIndex(k).Interface())
		}
		return m
	}
	return x
}

func cut(s string) string {
	if len(s) > 60 {
		return s[:60]
	}
	return s
}

func strange(x any) string { return cut(fmt.Sprintf("?%T %+v", x, x)) }

// show is the opposite of build. x has the type t or, when typed is false, it is what a receiver gets who does not
// say which type it expects
func show(t reflect.Type, x reflect.Value, typed bool) []string {
	for !typed && x.IsValid() && x.Kind() == reflect.Interface {
		x = x.Elem()
	}
	var raw any
	if x.IsValid() {
		raw = x.Interface()
	}
	odd := []string{strange(raw)}
	if typed && x.Type() != t {
		return odd
	}
	switch {
	case t == timeType:
		var got time.Time
		switch y := raw.(type) {
		case time.Time:
			got = y
		case string:
			var err error
			if got, err = time.Parse(time.RFC3339Nano, y); err != nil {
				return odd
			}
		default:
			return odd
		}
		for k, y := range atomTime {
			if y.Equal(got) {
				return []string{k}
			}
		}
		return odd
	case t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8:
		var got []byte
		switch y := raw.(type) {
		case nil:
		case []byte:
			got = y
		case string:
			var err error
			if got, err = base64.StdEncoding.DecodeString(y); err != nil {
				return odd
			}
		default:
			return odd
		}
		for k, y := range atomBytes {
			if string(y) == string(got) {
				return []string{k}
			}
		}
		return odd
	}
	number := func(f func(a string) (any, float64, bool), atoms []string) []string {
		for _, a := range atoms {
			if exact, approx, ok := f(a); ok {
				y := reflect.ValueOf(exact)
				if raw != nil && (x.CanInt() && y.CanInt() && x.Int() == y.Int() || x.CanUint() && y.CanUint() && x.Uint() == y.Uint() ||
					x.CanFloat() && x.Float() == approx && (!typed || y.CanFloat())) {
					return []string{a}
				}
				// the receiver chooses how to store a number
				if raw != nil && !typed && (x.CanUint() && y.CanInt() && y.Int() >= 0 && x.Uint() == uint64(y.Int()) ||
					x.CanInt() && y.CanUint() && x.Int() >= 0 && uint64(x.Int()) == y.Uint() || !x.CanFloat() && y.CanFloat() && normal(raw) == approx) {
					return []string{a}
				}
			}
		}
		return odd
	}
	switch t.Kind() {
	case reflect.Bool:
		if b, ok := raw.(bool); ok {
			return []string{fmt.Sprint(b)}
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return number(func(a string) (any, float64, bool) { n, ok := atomInt(t, a); return n, float64(n), ok }, intAtoms)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return number(func(a string) (any, float64, bool) { n, ok := atomUint(t, a); return n, float64(n), ok }, uintAtoms)
	case reflect.Float32, reflect.Float64:
		return number(func(a string) (any, float64, bool) {
			n, ok := atomFloat(t, a)
			if ok && t.Bits() == 32 && x.IsValid() && x.CanFloat() && float32(x.Float()) == float32(n) {
				// the digits of a float32 are enough
				return n, x.Float(), ok
			}
			return n, n, ok
		}, floatAtoms)
	case reflect.String:
		if x.IsValid() && x.Kind() == reflect.String {
			for k, y := range atomText {
				if y == x.String() {
					return []string{k}
				}
			}
		}
	case reflect.Interface:
		for k, y := range atomAny {
			if reflect.DeepEqual(normal(y), normal(raw)) {
				return []string{k}
			}
		}
	case reflect.Pointer:
		if typed {
			if x.IsNil() {
				return []string{"nil"}
			}
			return append([]string{"to"}, show(t.Elem(), x.Elem(), true)...)
		}
		if raw == nil {
			return []string{"nil"}
		}
		return append([]string{"to"}, show(t.Elem(), x, false)...)
	case reflect.Slice, reflect.Array:
		n := 0
		if raw != nil {
			if x.Kind() != reflect.Slice && x.Kind() != reflect.Array {
				return odd
			}
			n = x.Len()
		}
		var l []string
		if t.Kind() == reflect.Slice {
			l = append(l, fmt.Sprint(n))
		} else if n != t.Len() {
			return odd
		}
		for i := 0; i < n; i++ {
			l = append(l, show(t.Elem(), x.Index(i), typed)...)
		}
		return l
	case reflect.Map:
		if raw == nil {
			return []string{"0"}
		}
		if x.Kind() != reflect.Map {
			return odd
		}
		type entry struct {
			key  string
			vals []string
		}
		var es []entry
		for _, k := range x.MapKeys() {
			var key string
			if kt := t.Key(); kt.Kind() == reflect.String {
				key = show(kt, k, typed)[0]
			} else {
				for k.Kind() == reflect.Interface {
					k = k.Elem()
				}
				key = fmt.Sprint(k.Interface())
			}
			es = append(es, entry{key, show(t.Elem(), x.MapIndex(k), typed)})
		}
		order := map[string]int{"a": 1, "1": 1, "uni": 2, "-1": 2}
		sort.Slice(es, func(i, j int) bool { return order[es[i].key] < order[es[j].key] })
		l := []string{fmt.Sprint(len(es))}
		for _, e := range es {
			l = append(append(l, e.key), e.vals...)
		}
		return l
	case reflect.Struct:
		if typed {
			l := []string{}
			for i := 0; i < t.NumField(); i++ {
				l = append(l, show(t.Field(i).Type, x.Field(i), true)...)
			}
			return l
		}
		// the keys of a map may have any type which holds a string
		if raw == nil || x.Kind() != reflect.Map {
			return odd
		}
		m := map[string]any{}
		for _, k := range x.MapKeys() {
			key, ok := k.Interface().(string)
			if !ok {
				return odd
			}
			m[key] = x.MapIndex(k).Interface()
		}
		seen := 0
		var fields func(t reflect.Type) []string
		fields = func(t reflect.Type) []string {
			l := []string{}
			for i := 0; i < t.NumField(); i++ {
				f := t.Field(i)
				if f.Anonymous {
					l = append(l, fields(f.Type)...)
					continue
				}
				name, opts, _ := strings.Cut(f.Tag.Get("json"), ",")
				if name == "" {
					name = f.Name
				}
				y, ok := m[name]
				if ok {
					seen++
					l = append(l, show(f.Type, reflect.ValueOf(&y).Elem(), false)...)
				} else if opts == "omitempty" {
					l = append(l, show(f.Type, reflect.Zero(f.Type), true)...)
				} else {
					l = append(l, "?missing "+name)
				}
			}
			return l
		}
		l := fields(t)
		if seen != len(m) {
			return append(l, strange(raw))
		}
		return l
	}
	return odd
}

type valueEvent struct {
	At string   `json:"at"`
	V  []string `json:"v"`
}

// valueLog is what methods and driver share.
type valueLog struct {
	mx   sync.Mutex
	got  []valueEvent
	down map[int][]any
	ctx  context.Context
}

func (g *valueLog) add(at string, v []string) {
	g.mx.Lock()
	g.got = append(g.got, valueEvent{at, v})
	g.mx.Unlock()
}

func logTyped[T any](g *valueLog, at string, v T) {
	g.add(at, show(reflect.TypeFor[T](), reflect.ValueOf(&v).Elem(), true))
}

func (g *valueLog) preset(k int) []any {
	g.mx.Lock()
	defer g.mx.Unlock()
	return g.down[k]
}

type valueHub[T any] struct {
	signalr.Hub
	g *valueLog
}

func (h *valueHub[T]) Arg(v T) T { logTyped(h.g, "arg", v); return v }
func (h *valueHub[T]) Two(a T, k int, b T, s string) {
	logTyped(h.g, "first", a)
	logTyped(h.g, "second", b)
	if s != fmt.Sprint("k", k) {
		h.g.add("odd", []string{s})
	}
}
func (h *valueHub[T]) Down(k int) <-chan T {
	ch := make(chan T)
	go func() {
		defer close(ch)
		for _, v := range h.g.preset(k) {
			t, _ := v.(T)
			select {
			case ch <- t:
			case <-h.g.ctx.Done():
				return
			}
		}
	}()
	return ch
}
func (h *valueHub[T]) Up(k int, ch <-chan T) int {
	// all are kept before the first is looked at
	var all []T
	for v := range ch {
		all = append(all, v)
	}
	for _, v := range all {
		logTyped(h.g, "up", v)
	}
	return k
}
func (h *valueHub[T]) Back(v T, k int) any {
	logTyped(h.g, "callee", v)
	return h.g.preset(k)[0]
}

type valueReceiver[T any] struct {
	signalr.Receiver
	g *valueLog
}

func (r *valueReceiver[T]) Note(v T) { logTyped(r.g, "note", v) }

// valueType has what depends on the type
type valueType struct {
	t        reflect.Type
	hub      func(g *valueLog) signalr.HubInterface
	receiver func(g *valueLog) any
	channel  func() (ch any, send func(v any), done func())
}

func valueOf[T any]() valueType {
	return valueType{
		t:        reflect.TypeFor[T](),
		hub:      func(g *valueLog) signalr.HubInterface { return &valueHub[T]{g: g} },
		receiver: func(g *valueLog) any { return &valueReceiver[T]{g: g} },
		channel: func() (any, func(v any), func()) {
			ch := make(chan T, 100)
			return ch, func(v any) { t, _ := v.(T); ch <- t }, func() { close(ch) }
		},
	}
}

var valueTypes = map[string]valueType{
	"bool": valueOf[bool](), "int8": valueOf[int8](), "int16": valueOf[int16](), "int32": valueOf[int32](), "int64": valueOf[int64](), "int": valueOf[int](),
	"uint8": valueOf[uint8](), "uint16": valueOf[uint16](), "uint32": valueOf[uint32](), "uint64": valueOf[uint64](), "uint": valueOf[uint](),
	"float32": valueOf[float32](), "float64": valueOf[float64](), "string": valueOf[string](), "bytes": valueOf[[]byte](), "time": valueOf[time.Time](),
	"duration": valueOf[time.Duration](), "level": valueOf[Level](), "kind": valueOf[Kind](), "any": valueOf[any](), "ptr": valueOf[*int](),
	"strings": valueOf[[]string](), "ints": valueOf[[]int](), "bools": valueOf[[]bool](), "floats": valueOf[[]float64](), "matrix": valueOf[[][]int16](),
	"ptrs": valueOf[[]*int](), "anys": valueOf[[]any](), "times": valueOf[[]time.Time](), "blobs": valueOf[[][]byte](), "array": valueOf[[3]int](),
	"mapint": valueOf[map[string]int](), "mapstr": valueOf[map[string]string](), "mapany": valueOf[map[string]any](), "maplist": valueOf[map[string][]string](),
	"mapkey": valueOf[map[int]string](), "mapmap": valueOf[map[string]map[string]int](), "flat": valueOf[Flat](), "flatptr": valueOf[*Flat](),
	"flats": valueOf[[]Flat](), "flatptrs": valueOf[[]*Flat](), "mapflat": valueOf[map[string]Flat](), "opt": valueOf[Opt](), "opts": valueOf[[]Opt](),
	"optptr": valueOf[*Opt](), "embed": valueOf[Embed](), "mix": valueOf[Mix](), "tagged": valueOf[Tagged](),
}

func valuesDriver(r *Run) {
	proto := r.Cfg.S("proto")
	g := &valueLog{down: map[int][]any{}}
	ctx, cancel := context.WithCancel(context.Background())
	g.ctx = ctx
	if len(r.Acts) == 0 {
		cancel()
		return
	}
	vt, ok := valueTypes[r.Acts[0].S("t")]
	if !ok {
		panic("harness: values: unknown type " + r.Acts[0].S("t"))
	}
	methods := []string{"Arg", "Two", "Down", "Up", "Note", "Back"}
	alt := func(m string) string { return "x-" + m + " ä." }
	opts := append(longOpts(), signalr.HandshakeTimeout(farAway), signalr.MaximumReceiveMessageSize(1<<20))
	for _, m := range methods {
		opts = append(opts, signalr.WithAlternateMethodName(m, alt(m)))
	}
	srv, err := signalr.NewServer(ctx, append(opts[:len(opts):len(opts)], signalr.HubFactory(func() signalr.HubInterface { return vt.hub(g) }))...)
	if err != nil {
		panic(err)
	}
	a, b := newMemConn(context.Background(), "conn"), newMemConn(context.Background(), "conn")
	a.onWrite, b.onWrite = b.Feed, a.Feed
	client, err := signalr.NewClient(ctx, append(opts[:len(opts):len(opts)], signalr.WithConnection(r.wire(b)), signalr.TransferFormat(transferFormat(proto)), signalr.WithReceiver(vt.receiver(g)))...)
	if err != nil {
		panic(err)
	}
	wired := r.wire(a)
	go func() { _ = srv.Serve(wired) }()
	client.Start()
	r.Settle()
	count := 0
	// prepare returns the call to make
	prepare := func(act Act) func() {
		name := func(m string) string {
			switch act.S("name") {
			case "lower":
				return strings.ToLower(m)
			case "upper":
				return strings.ToUpper(m)
			case "alt":
				return alt(m)
			}
			return m
		}
		count++
		k := count
		var vals []any
		for _, v := range act.L("vs") {
			var atoms []string
			for _, x := range v.([]any) {
				atoms = append(atoms, x.(string))
			}
			p := reflect.New(vt.t).Elem()
			if rest := build(p, atoms); len(rest) > 0 {
				panic(fmt.Sprintf("harness: values: %v has %v left of %v", vt.t, rest, atoms))
			}
			vals = append(vals, p.Interface())
		}
		g.mx.Lock()
		g.down[k] = vals
		if act.S("pos") == "back" {
			g.down[k] = vals[1:]
		}
		g.mx.Unlock()
		result := func(at string, ch <-chan signalr.InvokeResult) {
			got := 0
			defer func() {
				if at != "" && at != "down" && got == 0 {
					// no value is the same as nil
					var v any
					g.add(at, show(vt.t, reflect.ValueOf(&v).Elem(), false))
				}
			}()
			for res := range ch {
				got++
				if res.Error != nil {
					g.add("odd", []string{at, cut(res.Error.Error())})
				} else if at != "" {
					v := res.Value
					g.add(at, show(vt.t, reflect.ValueOf(&v).Elem(), false))
				}
			}
		}
		switch act.S("pos") {
		case "arg":
			return func() { result("result", client.Invoke(name("Arg"), vals[0])) }
		case "two":
			return func() { result("", client.Invoke(name("Two"), vals[0], k, vals[1], fmt.Sprint("k", k))) }
		case "down":
			return func() { result("down", client.PullStream(name("Down"), k)) }
		case "back":
			return func() { result("back", client.Invoke(name("Back"), vals[0], k)) }
		case "up":
			return func() {
				ch, send, done := vt.channel()
				res := client.PushStreams(name("Up"), k, ch)
				for _, v := range vals {
					send(v)
				}
				done()
				for x := range res {
					if x.Error != nil {
						g.add("odd", []string{"up", cut(x.Error.Error())})
					} else if normal(x.Value) != float64(k) {
						g.add("odd", []string{"up", strange(x.Value)})
					}
				}
			}
		case "note":
			return func() { srv.HubClients().All().Send(name("Note"), vals[0]) }
		}
		panic("harness: values: unknown position " + act.S("pos"))
	}
	for _, act := range r.Acts {
		g.mx.Lock()
		g.got = []valueEvent{}
		g.mx.Unlock()
		if act.S("a") == "call" {
			go prepare(act)()
		} else {
			x, y := prepare(Act(act["x"].(map[string]any))), prepare(Act(act["y"].(map[string]any)))
			go func() { jitter(); x() }()
			go func() { jitter(); y() }()
		}
		r.Settle()
		g.mx.Lock()
		r.Rec(act, map[string]any{"got": g.got})
		g.mx.Unlock()
	}
	a.Drop(io.EOF)
	b.Drop(io.EOF)
	cancel()
	a.Close()
	b.Close()
	if r.Bubble {
		r.Advance(15 * time.Second)
	}
}
