package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strings"
	"time"
	"unicode/utf16"

	"github.com/tg123/phabrik/common"
	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/naming"
	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"

	"phv/wf"
)

// ---------------------------------------------------------------- go types

type Base1 struct {
	A int32
	S string
}
type base2 struct {
	B    uint16
	Flag bool
}
type E1 struct {
	Base1
	X int64
}
type E2 struct {
	base2
	Y string
}
type E3 struct {
	*Base1
	Z uint32
}
type MyInt int32
type E4 struct {
	MyInt
	Q bool
}
type MyMap map[string]int32
type MyStrs []string
type E5 struct {
	MyMap
	MyStrs
	N float64
}
type E6 struct {
	E1
	hidden int
	In     struct{ E2 }
	L      []E4
}
type MyGuid struct {
	G  serialization.GUID
	Id federation.NodeID
	R  federation.NodeIdRange
}
type E7 struct {
	MyGuid
	PG *serialization.GUID
	Gs []serialization.GUID
	Rs []federation.NodeIdRange
	MG map[serialization.GUID]federation.NodeID
}
type E8 struct {
	First int8
	E2
	E5
	Last *E8b
}
type E8b struct {
	base2
	Base1
	T float32
}
type Rec struct {
	V int32
	N *Rec
}

var staticTypes = []interface{}{
	E1{}, E2{}, E3{}, E4{}, E5{}, E6{}, E7{}, E8{},
	federation.PartnerNodeInfo{}, federation.FederationPartnerNodeHeader{}, federation.PToPHeader{}, federation.RoutingHeader{},
	federation.GlobalLease{}, federation.VoteTicket{},
	naming.ServiceNotification{}, naming.NotificationClientConnectionRequestBody{}, naming.NotificationClientConnectionReplyBody{},
	naming.RegisterServiceNotificationFilterRequestBody{}, naming.ApplicationQueryResult{}, naming.GatewayDescription{},
	common.Uri{}, transport.MessageId{},
}

var (
	rtGuid = reflect.TypeOf(serialization.GUID{})
	rtNid  = reflect.TypeOf(federation.NodeID{})
	rtRng  = reflect.TypeOf(federation.NodeIdRange{})
)

var scalarTypes = map[string]reflect.Type{
	"bool": reflect.TypeOf(false), "u8": reflect.TypeOf(uint8(0)), "i8": reflect.TypeOf(int8(0)),
	"u16": reflect.TypeOf(uint16(0)), "u32": reflect.TypeOf(uint32(0)), "u64": reflect.TypeOf(uint64(0)),
	"i16": reflect.TypeOf(int16(0)), "i32": reflect.TypeOf(int32(0)), "i64": reflect.TypeOf(int64(0)),
	"f32": reflect.TypeOf(float32(0)), "f64": reflect.TypeOf(float64(0)), "str": reflect.TypeOf(""),
	"guid": rtGuid, "nid": rtNid, "rng": rtRng,
}

// descOf describes a go type, recursion is cut at depth
func descOf(rt reflect.Type, depth int) *wf.Ty {
	switch rt {
	case rtGuid:
		return wf.T("guid")
	case rtNid:
		return wf.T("nid")
	case rtRng:
		return wf.T("rng")
	}
	if depth == 0 {
		return wf.T("bool") // only reached through nil pointers
	}
	switch rt.Kind() {
	case reflect.Ptr:
		return wf.Ptr(descOf(rt.Elem(), depth-1))
	case reflect.Slice:
		return wf.Slice(descOf(rt.Elem(), depth))
	case reflect.Map:
		return wf.Map(descOf(rt.Key(), depth), descOf(rt.Elem(), depth))
	case reflect.Struct:
		t := &wf.Ty{K: "struct", F: []wf.Field{}}
		for i := 0; i < rt.NumField(); i++ {
			f := rt.Field(i)
			emb := f.Anonymous && f.Type.Kind() == reflect.Struct
			if !f.IsExported() && !emb {
				continue
			}
			t.F = append(t.F, wf.Field{T: descOf(f.Type, depth), Emb: emb})
		}
		return t
	}
	for k, t := range scalarTypes {
		if t.Kind() == rt.Kind() && k != "guid" && k != "nid" && k != "rng" {
			return wf.T(k)
		}
	}
	panic("no description of " + rt.String())
}

// goType makes the go type of a description
func goType(t *wf.Ty) reflect.Type {
	switch t.K {
	case "ptr":
		return reflect.PointerTo(goType(t.E))
	case "slice":
		return reflect.SliceOf(goType(t.E))
	case "map":
		return reflect.MapOf(goType(t.Key), goType(t.E))
	case "struct":
		var fs []reflect.StructField
		for i, f := range t.F {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: goType(f.T), Anonymous: f.Emb && f.T.K == "struct"})
		}
		return reflect.StructOf(fs)
	}
	return scalarTypes[t.K]
}

func flatFields(rv reflect.Value) []reflect.Value {
	var r []reflect.Value
	for i := 0; i < rv.NumField(); i++ {
		f := rv.Type().Field(i)
		if f.Anonymous && f.Type.Kind() == reflect.Struct {
			r = append(r, flatFields(rv.Field(i))...)
		} else if f.IsExported() {
			r = append(r, rv.Field(i))
		}
	}
	return r
}

func guidBytes(g serialization.GUID) (b [16]byte) {
	binary.LittleEndian.PutUint32(b[0:], g.Data1)
	binary.LittleEndian.PutUint16(b[4:], g.Data2)
	binary.LittleEndian.PutUint16(b[6:], g.Data3)
	copy(b[8:], g.Data4[:])
	return
}

func bytesGuid(b [16]byte) (g serialization.GUID) {
	g.Data1 = binary.LittleEndian.Uint32(b[0:])
	g.Data2 = binary.LittleEndian.Uint16(b[4:])
	g.Data3 = binary.LittleEndian.Uint16(b[6:])
	copy(g.Data4[:], b[8:])
	return
}

func nidBytes(n federation.NodeID) (b [16]byte) {
	binary.LittleEndian.PutUint64(b[0:], n.Hi)
	binary.LittleEndian.PutUint64(b[8:], n.Lo)
	return
}

func bytesNid(b []byte) federation.NodeID {
	return federation.NodeID{Hi: binary.LittleEndian.Uint64(b[0:]), Lo: binary.LittleEndian.Uint64(b[8:])}
}

// toGo sets a go value
func toGo(t *wf.Ty, v wf.V, rv reflect.Value) {
	switch t.K {
	case "bool":
		rv.SetBool(v.(bool))
	case "u8", "u16", "u32", "u64":
		rv.SetUint(v.(uint64))
	case "i8", "i16", "i32", "i64":
		rv.SetInt(int64(v.(uint64)))
	case "f32", "f64":
		rv.SetFloat(math.Float64frombits(v.(uint64)))
	case "str":
		rv.SetString(v.(string))
	case "guid":
		rv.Set(reflect.ValueOf(bytesGuid(v.([16]byte))))
	case "nid":
		b := v.([16]byte)
		rv.Set(reflect.ValueOf(bytesNid(b[:])))
	case "rng":
		b := v.([32]byte)
		rv.Set(reflect.ValueOf(federation.NodeIdRange{Begin: bytesNid(b[:16]), End: bytesNid(b[16:])}))
	case "ptr":
		p := v.([]wf.V)
		if len(p) == 0 {
			rv.Set(reflect.Zero(rv.Type()))
			return
		}
		x := reflect.New(rv.Type().Elem())
		toGo(t.E, p[0], x.Elem())
		rv.Set(x)
	case "slice":
		s := v.([]wf.V)
		x := reflect.MakeSlice(rv.Type(), len(s), len(s))
		for i := range s {
			toGo(t.E, s[i], x.Index(i))
		}
		rv.Set(x)
	case "map":
		x := reflect.MakeMap(rv.Type())
		for _, e := range v.([][2]wf.V) {
			k := reflect.New(rv.Type().Key()).Elem()
			y := reflect.New(rv.Type().Elem()).Elem()
			toGo(t.Key, e[0], k)
			toGo(t.E, e[1], y)
			x.SetMapIndex(k, y)
		}
		rv.Set(x)
	case "struct":
		fl := t.Flat()
		for i, f := range flatFields(rv) {
			toGo(fl[i], v.([]wf.V)[i], f)
		}
	}
}

// fromGo reads a go value
func fromGo(t *wf.Ty, rv reflect.Value) wf.V {
	switch t.K {
	case "bool":
		if rv.Kind() != reflect.Bool {
			return false
		}
		return rv.Bool()
	case "u8", "u16", "u32", "u64":
		return rv.Uint()
	case "i8", "i16", "i32", "i64":
		return uint64(rv.Int())
	case "f32", "f64":
		return math.Float64bits(rv.Float())
	case "str":
		return rv.String()
	case "guid":
		return guidBytes(rv.Interface().(serialization.GUID))
	case "nid":
		return nidBytes(rv.Interface().(federation.NodeID))
	case "rng":
		r := rv.Interface().(federation.NodeIdRange)
		var b [32]byte
		x, y := nidBytes(r.Begin), nidBytes(r.End)
		copy(b[:16], x[:])
		copy(b[16:], y[:])
		return b
	case "ptr":
		if rv.IsNil() {
			return []wf.V{}
		}
		return []wf.V{fromGo(t.E, rv.Elem())}
	case "slice":
		r := []wf.V{}
		for i := 0; i < rv.Len(); i++ {
			r = append(r, fromGo(t.E, rv.Index(i)))
		}
		return r
	case "map":
		r := [][2]wf.V{}
		for _, k := range rv.MapKeys() {
			r = append(r, [2]wf.V{fromGo(t.Key, k), fromGo(t.E, rv.MapIndex(k))})
		}
		return r
	case "struct":
		fl := t.Flat()
		r := []wf.V{}
		for i, f := range flatFields(rv) {
			r = append(r, fromGo(fl[i], f))
		}
		return r
	}
	panic(t.K)
}

// ---------------------------------------------------------------- generators

var scalarKinds = []string{"bool", "u8", "i8", "u16", "u32", "u64", "i16", "i32", "i64", "f32", "f64", "str", "guid", "nid", "rng"}
var keyKinds = []string{"bool", "u8", "i8", "u16", "u32", "u64", "i16", "i32", "i64", "str", "guid", "nid"}

func genType(r *rand.Rand, depth int) *wf.Ty {
	x := r.Intn(10)
	if depth <= 0 || x < 4 {
		return wf.T(scalarKinds[r.Intn(len(scalarKinds))])
	}
	switch x {
	case 4, 5:
		return wf.Ptr(genType(r, depth-1))
	case 6, 7:
		for {
			e := genType(r, depth-1)
			if e.K != "slice" && e.K != "map" {
				return wf.Slice(e)
			}
		}
	case 8:
		k := wf.T(keyKinds[r.Intn(len(keyKinds))])
		if r.Intn(4) == 0 {
			k = wf.Struct(wf.T(keyKinds[r.Intn(len(keyKinds))]), wf.T("str"))
		}
		return wf.Map(k, genType(r, depth-1))
	}
	return genStruct(r, depth-1)
}

func genStruct(r *rand.Rand, depth int) *wf.Ty {
	n := r.Intn(6)
	var ts []*wf.Ty
	for i := 0; i < n; i++ {
		ts = append(ts, genType(r, depth))
	}
	return wf.Struct(ts...)
}

// genInt favours the boundaries of groups and widths
func genInt(r *rand.Rand, k string) uint64 {
	bits := map[string]int{"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64}[k]
	signed := k[0] == 'i'
	var v uint64
	switch r.Intn(4) {
	case 0:
		v = uint64(r.Intn(4))
	case 1:
		v = uint64(1)<<uint(r.Intn(bits)) + uint64(r.Intn(3)) - 1
	case 2:
		v = uint64(1)<<uint(7*r.Intn(10)%bits) - uint64(r.Intn(3))
	default:
		v = r.Uint64() >> uint(r.Intn(64))
	}
	if signed && r.Intn(2) == 0 {
		v = -v
	}
	sh := uint(64 - bits)
	if signed {
		return uint64(int64(v<<sh) >> sh)
	}
	return v << sh >> sh
}

var sampleRunes = []rune{'a', 'Z', '0', ' ', 0, 0x7f, 0x80, 0xff, 0x100, 0x2f00, 0x4e2d, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff}

func genStr(r *rand.Rand) string {
	n := r.Intn(5)
	if r.Intn(20) == 0 {
		n = 60 + r.Intn(10)
	}
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = sampleRunes[r.Intn(len(sampleRunes))]
	}
	return string(rs)
}

func genVal(r *rand.Rand, t *wf.Ty, depth int) wf.V {
	switch t.K {
	case "bool":
		return r.Intn(2) == 0
	case "u8", "i8", "u16", "u32", "u64", "i16", "i32", "i64":
		return genInt(r, t.K)
	case "f32":
		fs := []float32{0, 1, -1, 0.5, float32(math.Inf(1)) * 0, math.MaxFloat32, math.SmallestNonzeroFloat32 * 0, 3.25, float32(r.Float64()), float32(-r.NormFloat64() * 1e9)}
		f := fs[r.Intn(len(fs))]
		if f != f {
			f = 2
		}
		return math.Float64bits(float64(f))
	case "f64":
		fs := []float64{0, 1, -1, math.Copysign(0, -1), math.MaxFloat64, math.SmallestNonzeroFloat64, r.Float64(), r.NormFloat64() * 1e100}
		return math.Float64bits(fs[r.Intn(len(fs))])
	case "str":
		return genStr(r)
	case "guid", "nid":
		var b [16]byte
		if r.Intn(4) > 0 {
			r.Read(b[:r.Intn(17)])
		}
		return b
	case "rng":
		var b [32]byte
		if r.Intn(4) > 0 {
			r.Read(b[:r.Intn(33)])
		}
		return b
	case "ptr":
		if r.Intn(4) == 0 || depth <= 0 {
			return []wf.V{}
		}
		return []wf.V{genVal(r, t.E, depth-1)}
	case "slice":
		s := []wf.V{}
		n := r.Intn(4)
		if r.Intn(40) == 0 {
			n = 64 + r.Intn(4)
		}
		if depth <= 0 {
			n = 0
		}
		for i := 0; i < n; i++ {
			s = append(s, genVal(r, t.E, depth-1))
		}
		return s
	case "map":
		s := [][2]wf.V{}
		seen := map[string]bool{}
		n := r.Intn(4)
		if depth <= 0 {
			n = 0
		}
		for i := 0; i < n; i++ {
			k := genVal(r, t.Key, depth)
			ks := fmt.Sprint(k)
			if seen[ks] {
				continue
			}
			seen[ks] = true
			s = append(s, [2]wf.V{k, genVal(r, t.E, depth-1)})
		}
		return s
	case "struct":
		s := []wf.V{}
		for _, f := range t.Flat() {
			s = append(s, genVal(r, f, depth))
		}
		return s
	}
	panic(t.K)
}

// ---------------------------------------------------------------- calls

type callRes struct {
	err   error
	panic string
	hang  bool
	alloc uint64
}

// guarded runs f, which must end
func guarded(f func() error) callRes {
	ch := make(chan callRes, 1)
	go func() {
		var c callRes
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		func() {
			defer func() {
				if r := recover(); r != nil {
					b := make([]byte, 4096)
					c.panic = fmt.Sprintf("%v %s", r, b[:runtime.Stack(b, false)])
				}
			}()
			c.err = f()
		}()
		runtime.ReadMemStats(&m1)
		c.alloc = m1.TotalAlloc - m0.TotalAlloc
		ch <- c
	}()
	select {
	case c := <-ch:
		return c
	case <-time.After(30 * time.Second):
		return callRes{hang: true}
	}
}

// bad adds an event for a panic or hang
func (c callRes) bad(g *Group, what interface{}) bool {
	if c.hang {
		g.Add(M{"op": "hang", "what": what})
		return true
	}
	if c.panic != "" {
		g.Add(M{"op": "panic", "what": what, "panic": c.panic})
		return true
	}
	return false
}

func unmarshal(t *wf.Ty, rt reflect.Type, b []byte) (callRes, M) {
	p := reflect.New(rt)
	in := append([]byte{}, b...)
	c := guarded(func() error { return serialization.Unmarshal(in, p.Interface()) })
	if c.hang || c.panic != "" {
		return c, nil
	}
	if c.err != nil {
		return c, M{"e": true}
	}
	return c, M{"e": false, "v": wf.JSON(t, fromGo(t, p.Elem()))}
}

func doMarshal(g *Group, t *wf.Ty, rt reflect.Type, v wf.V) {
	p := reflect.New(rt)
	toGo(t, v, p.Elem())
	var out []byte
	c := guarded(func() (err error) { out, err = serialization.Marshal(p.Interface()); return })
	ev := M{"op": "marshal", "ty": t, "v": wf.JSON(t, v)}
	if c.bad(g, ev) {
		return
	}
	if c.err != nil {
		ev["out"] = M{"e": true}
		ev["back"] = M{"e": true}
		g.Add(ev)
		return
	}
	ev["out"] = M{"e": false, "b": wf.Ints(out)}
	c, back := unmarshal(t, rt, out)
	if c.bad(g, ev) {
		return
	}
	ev["back"] = back
	g.Add(ev)
}

func doUn(g *Group, t *wf.Ty, rt reflect.Type, b []byte) {
	c, res := unmarshal(t, rt, b)
	ev := M{"op": "un", "ty": t, "inp": wf.Ints(b)}
	if c.bad(g, ev) {
		return
	}
	ev["res"] = res
	ev["alloc"] = c.alloc
	if c.alloc > 1<<30 {
		ev["alloc"] = 1 << 30
	}
	g.Add(ev)
}

func doTrunc(g *Group, t *wf.Ty, rt reflect.Type, b []byte) {
	var rs []bool
	for n := 0; n < len(b); n++ {
		c, res := unmarshal(t, rt, b[:n])
		if c.bad(g, M{"ty": t, "inp": wf.Ints(b[:n])}) {
			return
		}
		rs = append(rs, res["e"].(bool))
	}
	g.Add(M{"op": "trunc", "ty": t, "inp": wf.Ints(b), "res": rs})
}

type typed struct {
	t  *wf.Ty
	rt reflect.Type
}

func statics() []typed {
	var l []typed
	for _, s := range staticTypes {
		rt := reflect.TypeOf(s)
		l = append(l, typed{descOf(rt, 4), rt})
	}
	l = append(l, typed{descOf(reflect.TypeOf(Rec{}), 6), reflect.TypeOf(Rec{})})
	return l
}

func randTyped(r *rand.Rand, depth int) typed {
	t := genStruct(r, depth)
	return typed{t, goType(t)}
}

func nonNilChan() chan int { return make(chan int) }

func init() {
	drivers["S01"] = func(c *Ctx) {
		r := c.Rand(1)
		g := &Group{o: c.Out, name: "marshal", size: 25}
		for _, s := range statics() {
			doMarshal(g, s.t, s.rt, wf.Zero(s.t))
			for i := 0; i < c.N(6, 60); i++ {
				doMarshal(g, s.t, s.rt, genVal(r, s.t, 3))
			}
		}
		// every kind in every position
		for _, k := range scalarKinds {
			for _, t := range []*wf.Ty{wf.T(k), wf.Ptr(wf.T(k)), wf.Slice(wf.T(k)), wf.Ptr(wf.Ptr(wf.T(k))), wf.Slice(wf.Ptr(wf.T(k))), wf.Ptr(wf.Slice(wf.T(k))), wf.Map(wf.T("str"), wf.T(k)), wf.Slice(wf.Struct(wf.T(k))), wf.Struct(wf.T(k)), wf.Map(wf.T("u16"), wf.Slice(wf.T(k)))} {
				st := wf.Struct(t, wf.T("i16"))
				rt := goType(st)
				for i := 0; i < c.N(3, 30); i++ {
					doMarshal(g, st, rt, genVal(r, st, 4))
				}
			}
		}
		for _, k := range keyKinds {
			st := wf.Struct(wf.Map(wf.T(k), wf.T("i32")), wf.Map(wf.Struct(wf.T(k)), wf.Map(wf.T(k), wf.T("str"))))
			rt := goType(st)
			for i := 0; i < c.N(3, 30); i++ {
				doMarshal(g, st, rt, genVal(r, st, 4))
			}
		}
		for i := 0; i < c.N(700, 12000); i++ {
			s := randTyped(r, 1+r.Intn(3))
			doMarshal(g, s.t, s.rt, genVal(r, s.t, 4))
		}
		// values the specification generated, with its own encoding
		if c.Gen != "" {
			replayGen(c, g)
		}
		// long collections and strings: counts of one, two and three groups
		for _, n := range []int{63, 64, 65, 127, 128, 8191, 8192} {
			if n > 200 && !c.Thorough {
				continue
			}
			st := wf.Struct(wf.T("str"), wf.Slice(wf.T("u8")), wf.T("bool"))
			s := []wf.V{}
			for i := 0; i < n; i++ {
				s = append(s, uint64(i%256))
			}
			doMarshal(g, st, goType(st), []wf.V{strings.Repeat("x", n), s, true})
		}
		// unsupported shapes
		iface := interface{}(int32(5))
		ip := 5
		for _, u := range []interface{}{
			&struct{ A int }{}, &struct{ A int }{5}, &struct{ A uint }{}, &struct{ A uint }{7}, &struct{ A uintptr }{}, &struct{ A uintptr }{7},
			&struct{ A [4]byte }{}, &struct{ A [4]byte }{[4]byte{1}}, &struct{ A [0]int32 }{}, &struct{ A complex128 }{}, &struct{ A complex64 }{1},
			&struct{ A chan int }{}, &struct{ A chan int }{nonNilChan()}, &struct{ A func() }{}, &struct{ A func() }{func() {}},
			&struct{ A interface{} }{}, &struct{ A interface{} }{iface}, &struct{ A error }{},
			&struct{ A [][]int32 }{}, &struct{ A [][]int32 }{[][]int32{{1}}}, &struct{ A []map[string]int32 }{}, &struct{ A []map[string]int32 }{[]map[string]int32{{"a": 1}}},
			&struct{ A []interface{} }{}, &struct{ A []interface{} }{[]interface{}{int32(1)}}, &struct{ A []int }{}, &struct{ A []int }{[]int{1}},
			&struct{ A map[string]int }{map[string]int{"a": 1}}, &struct{ A map[int]string }{map[int]string{1: "a"}}, &struct{ A map[string][2]int32 }{map[string][2]int32{"a": {}}},
			&struct{ A *int }{&ip}, &struct{ A struct{ B int } }{}, &struct{ A []struct{ B int } }{make([]struct{ B int }, 1)}, &struct{ A *struct{ B func() } }{&struct{ B func() }{}},
			&struct{ A []chan int }{make([]chan int, 1)}, &struct{ A [][4]byte }{make([][4]byte, 2)},
		} {
			var err error
			cr := guarded(func() error { _, err = serialization.Marshal(u); return nil })
			what := fmt.Sprintf("%T %v", u, reflect.ValueOf(u).Elem().Field(0).IsZero())
			if !cr.bad(g, what) {
				g.Add(M{"op": "unsup", "what": what, "out": M{"e": err != nil}})
			}
		}
		g.Flush()
	}

	drivers["S02"] = func(c *Ctx) {
		r := c.Rand(2)
		g := &Group{o: c.Out, name: "version", size: 25}
		one := func(tn, to *wf.Ty, v wf.V, o *wf.Opt) {
			b := wf.EncOpt(tn, v, o)
			cr, res := unmarshal(to, goType(to), b)
			ev := M{"op": "ver", "tn": tn, "ty": to, "inp": wf.Ints(b)}
			if cr.bad(g, ev) {
				return
			}
			ev["res"] = res
			g.Add(ev)
		}
		for i := 0; i < c.N(1500, 25000); i++ {
			tn := genStruct(r, 1+r.Intn(3))
			if len(tn.F) == 0 {
				continue
			}
			to := shrink(r, tn, 3)
			v := genVal(r, tn, 4)
			o := &wf.Opt{}
			if r.Intn(3) == 0 {
				sel := r.Intn(8)
				n := []int{1, 5, 63, 64, 130}[r.Intn(5)]
				o.TypeInfo = func(k int) []byte {
					if sel != 0 && sel>>uint(k%3)&1 == 0 {
						return nil
					}
					x := make([]byte, n)
					for i := range x {
						x[i] = byte([]int{0x1f, 0x2f, 0x3f, 0, 0x80, 7}[i%6])
					}
					return x
				}
			}
			switch r.Intn(3) {
			case 0:
				one(tn, tn, v, o)
			case 1:
				one(tn, to, v, o)
			default: // older writer
				one(to, tn, genVal(r, to, 4), o)
			}
		}
		// structs in every position, each followed by something
		ks := []string{"bool", "u8", "i64", "str", "f64", "guid", "nid", "rng"}
		for _, k := range ks {
			for _, x := range []*wf.Ty{wf.T(k), wf.Slice(wf.T(k)), wf.Ptr(wf.T(k)), wf.Map(wf.T("str"), wf.T(k)), wf.Struct(wf.T(k))} {
				sn := wf.Struct(wf.T("i32"), x)
				so := wf.Struct(wf.T("i32"))
				for _, mk := range []func(*wf.Ty) *wf.Ty{
					func(s *wf.Ty) *wf.Ty { return s },
					func(s *wf.Ty) *wf.Ty { return wf.Ptr(s) },
					func(s *wf.Ty) *wf.Ty { return wf.Slice(s) },
					func(s *wf.Ty) *wf.Ty { return wf.Slice(wf.Ptr(s)) },
					func(s *wf.Ty) *wf.Ty { return wf.Map(wf.T("u32"), s) },
					func(s *wf.Ty) *wf.Ty { return wf.Struct(s) },
				} {
					tn := wf.Struct(wf.T("str"), mk(sn), wf.T("i16"))
					to := wf.Struct(wf.T("str"), mk(so), wf.T("i16"))
					one(tn, to, genVal(r, tn, 4), &wf.Opt{})
					one(to, tn, genVal(r, to, 4), &wf.Opt{})
					one(tn, to, genVal(r, tn, 4), &wf.Opt{TypeInfo: func(int) []byte { return []byte{0x2f, 0x3f, 1} }})
				}
			}
		}
		g.Flush()
	}

	drivers["S03"] = func(c *Ctx) {
		r := c.Rand(3)
		g := &Group{o: c.Out, name: "bytes", size: 25}
		st := statics()
		pick := func() typed {
			if r.Intn(3) == 0 {
				return st[r.Intn(len(st))]
			}
			return randTyped(r, 1+r.Intn(3))
		}
		// every type byte in front of every scalar
		for _, k := range scalarKinds {
			for _, mk := range []func(*wf.Ty) *wf.Ty{
				func(t *wf.Ty) *wf.Ty { return wf.Struct(wf.T("u8"), t) },
				func(t *wf.Ty) *wf.Ty { return wf.Struct(wf.Ptr(t)) },
				func(t *wf.Ty) *wf.Ty { return wf.Struct(wf.Slice(t)) },
				func(t *wf.Ty) *wf.Ty { return wf.Struct(wf.Map(wf.T("bool"), t)) },
			} {
				t := mk(wf.T(k))
				rt := goType(t)
				for m := 0; m < 256; m++ {
					if !c.Thorough && m >= 64 && m%16 > 0 && m%5 != 0 {
						continue
					}
					pay := []byte{byte(m), 0x05, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18}
					var b []byte
					switch t.F[0].T.K {
					case "u8":
						b = craftObj(append([]byte{4, 9}, pay...))
					case "ptr":
						b = craftObj(append([]byte{1}, pay...))
					case "slice":
						b = craftObj(append([]byte{wf.SliceMeta(wf.T(k)), 1}, pay...))
					default:
						b = craftObj(append([]byte{0x80, 1}, craftObj(append([]byte{0x42}, pay...))...))
					}
					doUn(g, t, rt, b)
				}
			}
		}
		// truncations
		for i := 0; i < c.N(250, 4000); i++ {
			s := pick()
			b := wf.Enc(s.t, genVal(r, s.t, 3))
			if len(b) > 400 {
				continue
			}
			doTrunc(g, s.t, s.rt, b)
		}
		// mutations and garbage
		for i := 0; i < c.N(2500, 60000); i++ {
			s := pick()
			b := wf.Enc(s.t, genVal(r, s.t, 3))
			if len(b) > 500 {
				continue
			}
			b = mutate(r, b)
			doUn(g, s.t, s.rt, b)
		}
		// lengths that claim more than there is
		for _, t := range []*wf.Ty{wf.Struct(wf.T("str")), wf.Struct(wf.Slice(wf.T("u8"))), wf.Struct(wf.Slice(wf.T("u64"))), wf.Struct(wf.Slice(wf.T("str"))),
			wf.Struct(wf.Slice(wf.Struct(wf.T("str"), wf.T("rng"), wf.T("rng")))), wf.Struct(wf.Map(wf.T("u16"), wf.T("rng"))), wf.Struct(wf.Slice(wf.T("rng"))), wf.Struct(wf.Slice(wf.T("bool"))),
			wf.Struct(wf.Slice(wf.Ptr(wf.T("i64"))))} {
			rt := goType(t)
			for _, n := range []uint64{100, 1 << 13, 1 << 16, 1 << 20, 1 << 22, 1 << 24, 1<<27 + 3} {
				f := t.F[0].T
				m := byte(0x8D)
				if f.K == "slice" {
					m = wf.SliceMeta(f.E)
				} else if f.K == "map" {
					m = 0x80
				}
				b := append([]byte{m}, wf.Compress(n, false)...)
				doUn(g, t, rt, craftObj(b))
				doUn(g, t, rt, craftObj(append(b, make([]byte, 200)...)))
				in := []byte{}
				for len(in) < 300 { // a claim in each of many elements
					in = append(in, b...)
				}
				doUn(g, t, rt, craftObj(in))
			}
		}
		// type information that claims too much
		for _, n := range []uint64{0, 1, 5, 200, 1 << 20, 1 << 30, 0xffffffff} {
			t := wf.Struct(wf.T("i32"))
			b := append([]byte{0, 40, 0, 0, 0, 1, 0, 0, 0}, wf.Compress(n, false)...)
			doUn(g, t, goType(t), append(b, 1, 2, 3, 0x1F, 7, 5, 0x2F, 0x3F))
		}
		// object sizes
		for _, n := range []uint32{0, 1, 2, 9, 10, 11, 12, 13, 14, 100, 1 << 20, 0x7fffffff, 0x80000000, 0xffffffff} {
			t := wf.Struct(wf.T("i32"), wf.Ptr(wf.Struct(wf.T("str"))), wf.T("u8"))
			b := wf.Enc(t, []wf.V{uint64(5), []wf.V{[]wf.V{"ab"}}, uint64(3)})
			for _, at := range []int{1, 13} {
				x := append([]byte{}, b...)
				binary.LittleEndian.PutUint32(x[at:], n)
				doUn(g, t, goType(t), x)
			}
		}
		g.Flush()
		// large inputs
		big := &Group{o: c.Out, name: "large", size: 1}
		rec := reflect.TypeOf(Rec{})
		for i, mk := range []func(n int) []byte{
			func(n int) []byte { return make([]byte, n) },
			func(n int) []byte { return repeat(n, 1) },
			func(n int) []byte { return repeat(n, 5, 7, 3, 1) },
			func(n int) []byte { return repeat(n, 0x88) },
			func(n int) []byte { return repeat(n, 0x47, 1) },
			func(n int) []byte { return repeat(n, 0, 0, 0, 0x10, 0, 0, 0, 0, 0, 0x1F, 0x47, 1) },
			func(n int) []byte { return repeat(n, 0x1F) },
		} {
			for _, n := range []int{1 << 16, 1 << 20, c.N(4<<20, 24<<20)} {
				for _, rt := range []reflect.Type{rec, reflect.TypeOf(RecL{}), reflect.TypeOf(RecM{})} {
					b := mk(n)
					p := reflect.New(rt)
					cr := guarded(func() error { return serialization.Unmarshal(b, p.Interface()) })
					if !cr.bad(big, fmt.Sprintf("pattern %d, %d bytes into %v", i, n, rt)) {
						big.Add(M{"op": "big", "what": fmt.Sprintf("pattern %d into %v", i, rt), "len": n >> 10, "alloc": cr.alloc >> 10})
					}
				}
			}
		}
	}

	drivers["S04"] = func(c *Ctx) {
		r := c.Rand(4)
		g := &Group{o: c.Out, name: "ints", size: 1}
		for _, k := range []string{"u16", "i16", "u32", "i32", "u64", "i64"} {
			var vs []uint64
			if strings.HasSuffix(k, "16") {
				step := 1 // all of them
				for i := 0; i < 65536; i += step {
					vs = append(vs, uint64(i))
				}
			}
			bits := wf.Width(k) * 8
			for i := 0; i < bits; i++ {
				for d := -2; d <= 2; d++ {
					vs = append(vs, uint64(1)<<uint(i)+uint64(d), -(uint64(1)<<uint(i) + uint64(d)))
				}
			}
			for i := 0; i < c.N(1500, 40000); i++ {
				vs = append(vs, genInt(r, k))
			}
			sh := uint(64 - bits)
			st := wf.Struct(wf.T(k))
			rt := goType(st)
			for i := 0; i < len(vs); i += 100 {
				ev := M{"op": "ints", "k": k}
				var ovs, oenc, odec []interface{}
				for _, v := range vs[i:min(i+100, len(vs))] {
					if k[0] == 'i' {
						v = uint64(int64(v<<sh) >> sh)
					} else {
						v = v << sh >> sh
					}
					p := reflect.New(rt)
					toGo(st, []wf.V{v}, p.Elem())
					var out []byte
					cr := guarded(func() (err error) { out, err = serialization.Marshal(p.Interface()); return })
					if cr.bad(g, v) {
						continue
					}
					body := []byte{}
					if len(out) >= 12 {
						body = out[10 : len(out)-2]
					}
					cr, res := unmarshal(st, rt, wf.Enc(st, []wf.V{v}))
					if cr.bad(g, v) {
						continue
					}
					ovs = append(ovs, wf.JSON(wf.T("u64"), v))
					oenc = append(oenc, wf.Ints(body))
					if res["e"].(bool) {
						odec = append(odec, []int{})
					} else {
						odec = append(odec, res["v"].([]interface{})[0])
					}
				}
				ev["vs"], ev["enc"], ev["dec"] = ovs, oenc, odec
				g.Add(ev)
			}
		}
		// arbitrary groups
		gg := &Group{o: c.Out, name: "groups", size: 50}
		for _, k := range []string{"u16", "i16", "u32", "i32", "u64", "i64"} {
			st := wf.Struct(wf.T(k))
			rt := goType(st)
			mx := (wf.Width(k)*8 + 6) / 7
			for i := 0; i < c.N(400, 8000); i++ {
				n := 1 + r.Intn(mx+2)
				b := make([]byte, n)
				for j := range b {
					b[j] = byte(r.Intn(128))
					if r.Intn(3) == 0 {
						b[j] = []byte{0, 1, 0x3f, 0x40, 0x7f}[r.Intn(5)]
					}
					if j < n-1 {
						b[j] |= 0x80
					}
				}
				cr, res := unmarshal(st, rt, craftObj(append([]byte{wf.Base(k)}, b...)))
				if cr.bad(gg, b) {
					continue
				}
				if !res["e"].(bool) {
					res["v"] = res["v"].([]interface{})[0]
				}
				gg.Add(M{"op": "groups", "k": k, "inp": wf.Ints(b), "res": res})
			}
		}
		// lengths of strings and arrays are compressed the same way
		for _, n := range []uint64{1, 63, 64, 65, 127, 128, 129, 8191, 8192} {
			st := wf.Struct(wf.T("str"))
			if n <= 129 {
				doMarshal(gg, st, goType(st), []wf.V{strings.Repeat("y", int(n))})
			}
			for _, x := range [][]byte{{0x90}, {0x90, 0x80}, {0xff, 0xff, 0xff}, {0x90, 0x80, 0x80, 0x80}} {
				b := append([]byte{0x8D}, x...)
				b = append(b, wf.Compress(n, false)...) // more groups, or beyond 32 bits
				b = append(b, make([]byte, 2*n)...)
				doUn(gg, st, goType(st), craftObj(b))
			}
		}
		gg.Flush()
	}
}

// RecL and RecM are recursive
type RecL struct{ L []RecL }
type RecM struct{ M map[uint16]RecM }

func repeat(n int, p ...byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = p[i%len(p)]
	}
	b[0] = p[0]
	return b
}

// craftObj wraps fields into an object
func craftObj(body []byte) []byte {
	b := []byte{0}
	b = binary.LittleEndian.AppendUint32(b, uint32(len(body)+11))
	b = append(b, 0, 0, 0, 0, 0x1F)
	b = append(b, body...)
	return append(b, 0x2F, 0x3F)
}

// shrink drops fields at the end of structs
func shrink(r *rand.Rand, t *wf.Ty, depth int) *wf.Ty {
	switch t.K {
	case "ptr", "slice":
		c := *t
		c.E = shrink(r, t.E, depth-1)
		return &c
	case "map":
		c := *t
		c.E = shrink(r, t.E, depth-1)
		return &c
	case "struct":
		n := len(t.F)
		if r.Intn(2) == 0 {
			n = r.Intn(n + 1)
		}
		c := &wf.Ty{K: "struct", F: []wf.Field{}}
		for _, f := range t.F[:n] {
			c.F = append(c.F, wf.Field{T: shrink(r, f.T, depth-1), Emb: f.Emb})
		}
		return c
	}
	return t
}

func mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for k := 1 + r.Intn(3); k > 0; k-- {
		if len(b) == 0 {
			return b
		}
		i := r.Intn(len(b))
		switch r.Intn(7) {
		case 0:
			b[i] = byte(r.Intn(256))
		case 1:
			b[i] ^= 1 << uint(r.Intn(8))
		case 2:
			b = append(b[:i], b[i+1:]...)
		case 3:
			b = append(b[:i], append([]byte{byte(r.Intn(256))}, b[i:]...)...)
		case 4:
			b = b[:i]
		case 5:
			j := r.Intn(len(b))
			if i > j {
				i, j = j, i
			}
			b = append(append(append([]byte{}, b[:j]...), b[i:j]...), b[j:]...)
		case 6:
			b[i] = []byte{0, 0x1F, 0x2F, 0x3F, 0xFF, 0x7F, 0x80, 0x88, 0x8D}[r.Intn(9)]
		}
	}
	if r.Intn(30) == 0 {
		b = make([]byte, r.Intn(60))
		r.Read(b)
	}
	return b
}

// replayGen runs the cases TLC generated from the specification
func replayGen(c *Ctx, g *Group) {
	data, err := os.ReadFile(c.Gen)
	if err != nil {
		panic(err)
	}
	gg := &Group{o: c.Out, name: "generated", size: 50}
	for _, line := range strings.Split(string(data), "\n") {
		if strings.TrimSpace(line) == "" {
			continue
		}
		var x struct {
			Ty *wf.Ty
			V  interface{}
			B  []int
		}
		if err := json.Unmarshal([]byte(line), &x); err != nil {
			panic(err)
		}
		fixTy(x.Ty)
		b := make([]byte, len(x.B))
		for i := range b {
			b[i] = byte(x.B[i])
		}
		v := fromJSON(x.Ty, x.V)
		rt := goType(x.Ty)
		doMarshal(gg, x.Ty, rt, v)
		doUn(gg, x.Ty, rt, b)
		c.Stats["generated_replayed"]++
	}
	gg.Flush()
}

func fixTy(t *wf.Ty) {
	if t.K == "struct" && t.F == nil {
		t.F = []wf.Field{}
	}
	for _, f := range t.F {
		fixTy(f.T)
	}
	if t.E != nil {
		fixTy(t.E)
	}
	if t.Key != nil {
		fixTy(t.Key)
	}
}

func fromJSON(t *wf.Ty, x interface{}) wf.V {
	arr := func() []interface{} { a, _ := x.([]interface{}); return a }
	num := func(i interface{}) int { return int(i.(float64)) }
	switch t.K {
	case "bool":
		return x.(bool)
	case "u8", "i8", "u16", "u32", "u64", "i16", "i32", "i64", "f32", "f64":
		v := uint64(0)
		for i, b := range arr() {
			v |= uint64(num(b)) << uint(8*i)
		}
		return v
	case "str":
		var us []uint16
		for _, u := range arr() {
			us = append(us, uint16(num(u)))
		}
		return string(utf16.Decode(us))
	case "guid", "nid":
		var b [16]byte
		for i, y := range arr() {
			b[i] = byte(num(y))
		}
		return b
	case "rng":
		var b [32]byte
		for i, y := range arr() {
			b[i] = byte(num(y))
		}
		return b
	case "ptr", "slice":
		r := []wf.V{}
		for _, y := range arr() {
			r = append(r, fromJSON(t.E, y))
		}
		return r
	case "map":
		r := [][2]wf.V{}
		for _, y := range arr() {
			p := y.([]interface{})
			r = append(r, [2]wf.V{fromJSON(t.Key, p[0]), fromJSON(t.E, p[1])})
		}
		return r
	case "struct":
		r := []wf.V{}
		fl := t.Flat()
		for i, y := range arr() {
			r = append(r, fromJSON(fl[i], y))
		}
		return r
	}
	panic(t.K)
}
