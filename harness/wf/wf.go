// Package wf is an encoder and decoder of the Service Fabric object format that
// is independent of phabrik's. The drivers use it to craft what peers send and
// to read what phabrik wrote.
package wf

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"unicode/utf16"
)

// Ty describes a type
type Ty struct {
	K      string  `json:"k"`
	E      *Ty     `json:"e,omitempty"`
	Key    *Ty     `json:"key,omitempty"`
	F      []Field `json:"f"`
	Static string  `json:"-"` // name of a static go type
}

// MarshalJSON writes the fields a kind has
func (t *Ty) MarshalJSON() ([]byte, error) {
	m := map[string]interface{}{"k": t.K}
	switch t.K {
	case "struct":
		f := t.F
		if f == nil {
			f = []Field{}
		}
		m["f"] = f
	case "map":
		m["key"], m["e"] = t.Key, t.E
	case "slice", "ptr":
		m["e"] = t.E
	}
	return json.Marshal(m)
}

// Field of a struct
type Field struct {
	T   *Ty  `json:"t"`
	Emb bool `json:"emb"`
}

// Values: bool; uint64 (two's complement) for integers and float bits; string;
// [16]byte guid and nid; [32]byte rng; []interface{} for ptr (0 or 1), slice and
// struct; [][2]interface{} for map.
type V = interface{}

func T(k string) *Ty   { return &Ty{K: k} }
func Ptr(e *Ty) *Ty    { return &Ty{K: "ptr", E: e} }
func Slice(e *Ty) *Ty  { return &Ty{K: "slice", E: e} }
func Map(k, e *Ty) *Ty { return &Ty{K: "map", Key: k, E: e} }
func Struct(ts ...*Ty) *Ty {
	t := &Ty{K: "struct", F: []Field{}}
	for _, x := range ts {
		t.F = append(t.F, Field{T: x})
	}
	return t
}

// Flat returns the types of all fields, embedded ones in place
func (t *Ty) Flat() []*Ty {
	var r []*Ty
	for _, f := range t.F {
		if f.Emb && f.T.K == "struct" {
			r = append(r, f.T.Flat()...)
		} else {
			r = append(r, f.T)
		}
	}
	return r
}

func IsUInt(k string) bool { return k == "u16" || k == "u32" || k == "u64" }
func IsSInt(k string) bool { return k == "i16" || k == "i32" || k == "i64" }
func Width(k string) int {
	switch k {
	case "u16", "i16":
		return 2
	case "u32", "i32":
		return 4
	}
	return 8
}

var base = map[string]byte{"bool": 2, "i8": 3, "u8": 4, "i16": 5, "u16": 6, "i32": 7, "u32": 8, "i64": 9, "u64": 10, "f32": 11, "f64": 11, "guid": 12, "str": 13, "ptr": 1, "struct": 0, "nid": 0, "rng": 0}

// Base type of a kind
func Base(k string) byte { return base[k] }

// Compress as few groups as possible
func Compress(v uint64, signed bool) []byte {
	sgn := uint64(0)
	if signed && v>>63 == 1 {
		sgn = ^uint64(0)
	}
	var g []byte
	for {
		g = append(g, byte(v&0x7f))
		if signed {
			v = uint64(int64(v) >> 7)
		} else {
			v >>= 7
		}
		if v == sgn && uint64(g[len(g)-1]>>6) == sgn&1 {
			break
		}
	}
	out := make([]byte, len(g))
	for i := range g {
		out[len(g)-1-i] = g[i]
		if i > 0 {
			out[len(g)-1-i] |= 0x80
		}
	}
	return out
}

func le32(n uint32) []byte { return binary.LittleEndian.AppendUint32(nil, n) }
func le64(n uint64) []byte { return binary.LittleEndian.AppendUint64(nil, n) }

// SliceMeta is the type byte of a slice
func SliceMeta(e *Ty) byte {
	if e.K == "str" || e.K == "ptr" {
		return 8
	}
	if e.K == "guid" { // a struct in go
		return 0x80
	}
	return base[e.K] | 0x80
}

// Opt changes the encoding
type Opt struct {
	// TypeInfo returns type information for the n-th object, or nil
	TypeInfo func(n int) []byte
	nobj     int
}

// Enc encodes
func Enc(t *Ty, v V) []byte { return EncOpt(t, v, &Opt{}) }

// EncOpt encodes with options
func EncOpt(t *Ty, v V, o *Opt) []byte {
	b := base[t.K]
	switch t.K {
	case "bool":
		if v.(bool) {
			return []byte{0x42}
		}
		return []byte{0x72}
	case "u8", "i8":
		if v.(uint64) == 0 {
			return []byte{0x40 | b}
		}
		return []byte{b, byte(v.(uint64))}
	case "u16", "u32", "u64", "i16", "i32", "i64":
		if v.(uint64) == 0 {
			return []byte{0x40 | b}
		}
		return append([]byte{b}, Compress(v.(uint64), IsSInt(t.K))...)
	case "f32", "f64":
		if v.(uint64) == 0 {
			return []byte{0x40 | b}
		}
		return append([]byte{b}, le64(v.(uint64))...)
	case "str":
		if v.(string) == "" {
			return []byte{0xCD}
		}
		u := utf16.Encode([]rune(v.(string)))
		r := append([]byte{0x8D}, Compress(uint64(len(u)), false)...)
		for _, x := range u {
			r = append(r, byte(x), byte(x>>8))
		}
		return r
	case "guid":
		g := v.([16]byte)
		if g == [16]byte{} {
			return []byte{0x4C}
		}
		return append([]byte{0x0C}, g[:]...)
	case "nid":
		g := v.([16]byte)
		return append([]byte{0x84, 16}, g[:]...)
	case "rng":
		g := v.([32]byte)
		r := append([]byte{0x84, 16}, g[:16]...)
		return append(append(r, 0x84, 16), g[16:]...)
	case "ptr":
		p := v.([]V)
		if len(p) == 0 {
			return []byte{0x41}
		}
		return append([]byte{1}, EncOpt(t.E, p[0], o)...)
	case "struct":
		var ti []byte
		flag := byte(0)
		if o.TypeInfo != nil {
			if x := o.TypeInfo(o.nobj); x != nil {
				ti = append(Compress(uint64(len(x)), false), x...)
				flag = 1
			}
		}
		o.nobj++
		var body []byte
		for i, f := range t.Flat() {
			body = append(body, EncOpt(f, v.([]V)[i], o)...)
		}
		r := append([]byte{0}, le32(uint32(len(body)+len(ti)+11))...)
		r = append(r, flag, 0, 0, 0)
		r = append(r, ti...)
		r = append(r, 0x1F)
		r = append(r, body...)
		return append(r, 0x2F, 0x3F)
	case "slice":
		s := v.([]V)
		m := SliceMeta(t.E)
		if len(s) == 0 {
			return []byte{0x40 | m}
		}
		r := append([]byte{m}, Compress(uint64(len(s)), false)...)
		for _, x := range s {
			r = append(r, EncOpt(t.E, x, o)...)
		}
		return r
	case "map":
		s := v.([][2]V)
		if len(s) == 0 {
			return []byte{0xC0}
		}
		r := append([]byte{0x80}, Compress(uint64(len(s)), false)...)
		pt := Struct(t.Key, t.E)
		for _, x := range s {
			r = append(r, EncOpt(pt, []V{x[0], x[1]}, o)...)
		}
		return r
	}
	panic("kind " + t.K)
}

// Dec decodes canonical encodings, newer versions of objects included
func Dec(t *Ty, b []byte) (v V, rest []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("wf: %v", r)
		}
	}()
	d := &dec{b: b}
	v = d.val(t)
	return v, d.b[d.p:], nil
}

type dec struct {
	b []byte
	p int
}

func (d *dec) byte() byte {
	if d.p >= len(d.b) {
		panic("end")
	}
	d.p++
	return d.b[d.p-1]
}

func (d *dec) bytes(n int) []byte {
	if n < 0 || d.p+n > len(d.b) {
		panic("end")
	}
	d.p += n
	return d.b[d.p-n : d.p]
}

func (d *dec) comp(signed bool) uint64 {
	x := d.byte()
	v := uint64(0)
	if x&0x40 != 0 {
		v = ^uint64(0)
	}
	for i := 0; ; i++ {
		v = v<<7 | uint64(x&0x7f)
		if x&0x80 == 0 {
			return v
		}
		if i > 10 {
			panic("long")
		}
		x = d.byte()
	}
}

// Zero value
func Zero(t *Ty) V {
	switch t.K {
	case "bool":
		return false
	case "str":
		return ""
	case "guid", "nid":
		return [16]byte{}
	case "rng":
		return [32]byte{}
	case "ptr", "slice":
		return []V{}
	case "map":
		return [][2]V{}
	case "struct":
		r := []V{}
		for _, f := range t.Flat() {
			r = append(r, Zero(f))
		}
		return r
	}
	return uint64(0)
}

func (d *dec) nid() []byte {
	if d.byte() != 0x84 || d.byte() != 16 {
		panic("nid")
	}
	return d.bytes(16)
}

func (d *dec) val(t *Ty) V {
	switch t.K {
	case "nid":
		var r [16]byte
		copy(r[:], d.nid())
		return r
	case "rng":
		var r [32]byte
		copy(r[:16], d.nid())
		copy(r[16:], d.nid())
		return r
	}
	m := d.byte()
	if t.K == "bool" {
		switch m {
		case 0x42:
			return true
		case 0x72:
			return false
		}
		panic("bool")
	}
	if m&0x40 != 0 {
		return Zero(t)
	}
	switch t.K {
	case "u8":
		return uint64(d.byte())
	case "i8":
		return uint64(int64(int8(d.byte())))
	case "u16", "u32", "u64", "i16", "i32", "i64":
		if m != base[t.K] {
			panic(fmt.Sprintf("meta %x for %s", m, t.K))
		}
		return d.comp(IsSInt(t.K))
	case "f32", "f64":
		return binary.LittleEndian.Uint64(d.bytes(8))
	case "str":
		if m != 0x8D {
			panic("str")
		}
		n := int(d.comp(false))
		b := d.bytes(2 * n)
		u := make([]uint16, n)
		for i := range u {
			u[i] = binary.LittleEndian.Uint16(b[2*i:])
		}
		return string(utf16.Decode(u))
	case "guid":
		var r [16]byte
		copy(r[:], d.bytes(16))
		return r
	case "ptr":
		return []V{d.val(t.E)}
	case "struct":
		if m != 0 {
			panic(fmt.Sprintf("object meta %x", m))
		}
		hp := d.p
		size := int(binary.LittleEndian.Uint32(d.bytes(4)))
		d.bytes(4)
		if d.byte() != 0x1F {
			panic("scope")
		}
		r := []V{}
		ended := false
		for _, f := range t.Flat() {
			if ended || d.b[d.p] == 0x2F {
				ended = true
				r = append(r, Zero(f))
				continue
			}
			r = append(r, d.val(f))
		}
		end := hp + size - 2
		if end < d.p || end+2 > len(d.b) {
			panic("size")
		}
		d.p = end
		if d.byte() != 0x2F || d.byte() != 0x3F {
			panic("scope end")
		}
		return r
	case "slice":
		n := int(d.comp(false))
		r := []V{}
		for i := 0; i < n; i++ {
			r = append(r, d.val(t.E))
		}
		return r
	case "map":
		n := int(d.comp(false))
		r := [][2]V{}
		pt := Struct(t.Key, t.E)
		for i := 0; i < n; i++ {
			p := d.val(pt).([]V)
			r = append(r, [2]V{p[0], p[1]})
		}
		return r
	}
	panic("kind " + t.K)
}

// Ints makes a JSON array of numbers of bytes
func Ints(b []byte) []int {
	r := make([]int, len(b))
	for i := range b {
		r[i] = int(b[i])
	}
	return r
}

// JSON form of a value, as the specification has it
func JSON(t *Ty, v V) interface{} {
	switch t.K {
	case "bool":
		return v
	case "u8", "i8", "u16", "u32", "u64", "i16", "i32", "i64", "f32", "f64":
		return Ints(le64(v.(uint64)))
	case "str":
		u := utf16.Encode([]rune(v.(string)))
		r := make([]int, len(u))
		for i := range u {
			r[i] = int(u[i])
		}
		return r
	case "guid", "nid":
		g := v.([16]byte)
		return Ints(g[:])
	case "rng":
		g := v.([32]byte)
		return Ints(g[:])
	case "ptr", "slice":
		r := []interface{}{}
		for _, x := range v.([]V) {
			r = append(r, JSON(t.E, x))
		}
		return r
	case "map":
		r := []interface{}{}
		for _, x := range v.([][2]V) {
			r = append(r, []interface{}{JSON(t.Key, x[0]), JSON(t.E, x[1])})
		}
		return r
	case "struct":
		r := []interface{}{}
		for i, f := range t.Flat() {
			r = append(r, JSON(f, v.([]V)[i]))
		}
		return r
	}
	panic("kind " + t.K)
}
