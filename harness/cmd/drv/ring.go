package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"time"
	"unicode/utf16"

	"github.com/tg123/phabrik/common"
	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/serialization"
)

// ids are 16 bytes, most significant first
func nidJ(n federation.NodeID) []int {
	r := make([]int, 16)
	for i := 0; i < 8; i++ {
		r[i] = int(n.Hi >> (56 - 8*i) & 0xff)
		r[8+i] = int(n.Lo >> (56 - 8*i) & 0xff)
	}
	return r
}

var nidEdges = []federation.NodeID{
	{Hi: 0, Lo: 0}, {Hi: 0, Lo: 1}, {Hi: 0, Lo: math.MaxUint64}, {Hi: 1, Lo: 0}, {Hi: 1, Lo: 1}, {Hi: 1, Lo: math.MaxUint64},
	{Hi: math.MaxInt64, Lo: math.MaxUint64}, {Hi: 1 << 63, Lo: 0}, {Hi: math.MaxUint64, Lo: 0}, {Hi: math.MaxUint64, Lo: math.MaxUint64 - 1}, {Hi: math.MaxUint64, Lo: math.MaxUint64},
	{Hi: 2, Lo: 1 << 63}, {Hi: 2, Lo: math.MaxInt64},
}

func rndNID(r *rand.Rand) federation.NodeID {
	n := federation.NodeID{Hi: r.Uint64(), Lo: r.Uint64()}
	switch r.Intn(6) {
	case 0:
		n.Hi = uint64(r.Intn(3))
	case 1:
		n.Lo = uint64(r.Intn(3))
	case 2:
		n.Hi >>= uint(r.Intn(64))
	case 3:
		n = nidEdges[r.Intn(len(nidEdges))]
	}
	return n
}

// nidNear is at a small distance of n
func nidNear(r *rand.Rand, n federation.NodeID) federation.NodeID {
	if r.Intn(2) == 0 {
		n.Lo++
		if n.Lo == 0 {
			n.Hi++
		}
	} else {
		if n.Lo == 0 {
			n.Hi--
		}
		n.Lo--
	}
	return n
}

func callOp(f func() M) (m M) {
	defer func() {
		if r := recover(); r != nil {
			m = M{"op": "panic", "p": fmt.Sprint(r)}
		}
	}()
	return f()
}

func bytesJ(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func unitsJ(s string) []int {
	u := utf16.Encode([]rune(s))
	r := make([]int, len(u))
	for i, x := range u {
		r[i] = int(x)
	}
	return r
}

func drvF01(c *Ctx) {
	g := &Group{o: c.Out, name: "range", size: 40}
	add := func(b, e federation.NodeID, ids []federation.NodeID) {
		g.Add(callOp(func() M {
			rg := federation.NodeIdRange{Begin: b, End: e}
			l, is := make([]bool, len(ids)), make([][]int, len(ids))
			for k, i := range ids {
				l[k], is[k] = rg.Contains(i), nidJ(i)
			}
			return M{"op": "ranges", "b": nidJ(b), "e": nidJ(e), "ids": is, "r": l}
		}))
	}
	for _, b := range nidEdges {
		for _, e := range nidEdges {
			add(b, e, nidEdges)
		}
	}
	r := c.Rand(1)
	for k := 0; k < c.N(1500, 40000); k++ {
		b, e := rndNID(r), rndNID(r)
		if r.Intn(5) == 0 {
			e = nidNear(r, b)
		}
		if r.Intn(8) == 0 {
			e = b
		}
		if r.Intn(4) == 0 {
			e.Hi = b.Hi
		}
		ids := []federation.NodeID{b, e, nidNear(r, b), nidNear(r, b), nidNear(r, e), nidNear(r, e), rndNID(r), rndNID(r), {Hi: b.Hi, Lo: r.Uint64()}, {Hi: e.Hi, Lo: r.Uint64()}, {Hi: r.Uint64(), Lo: b.Lo}}
		add(b, e, ids)
	}
	g.Flush()
}

func rndName(r *rand.Rand) string {
	alpha := []string{"N", "ode", "_", ".", "0", "1", "9", "17", "00", "é", "日", "\U0001F600", "\xff", "\xc3", " ", "-", "+", "x", "\x00", "A", "z", "4294967296", "18446744073709551615", "18446744073709551616", "99999999999999999999", "16777216", "nodetype"}
	s := ""
	for n := r.Intn(7); n > 0; n-- {
		s += alpha[r.Intn(len(alpha))]
	}
	switch r.Intn(5) {
	case 0:
		s += "." + strconv.Itoa(r.Intn(1<<r.Intn(30)+1))
	case 1:
		s += "_" + strconv.FormatUint(r.Uint64()>>uint(r.Intn(64)), 10)
	}
	return s
}

func drvF08(c *Ctx) {
	r := c.Rand(1)
	g := &Group{o: c.Out, name: "id", size: 30}
	str := func(n federation.NodeID) {
		g.Add(callOp(func() M {
			s := n.String()
			b, err := federation.NodeIDFromHex(s)
			return M{"op": "str", "id": nidJ(n), "s": bytesJ([]byte(s)), "ok": err == nil, "back": nidJ(b)}
		}))
	}
	hex := func(s string) {
		g.Add(callOp(func() M {
			b, err := federation.NodeIDFromHex(s)
			return M{"op": "hex", "s": bytesJ([]byte(s)), "ok": err == nil, "id": nidJ(b)}
		}))
	}
	for _, n := range nidEdges {
		str(n)
	}
	for k := 0; k < c.N(400, 4000); k++ {
		str(rndNID(r))
	}
	for _, s := range []string{"", "0", "1", "f", "F", "g", "-1", "+1", " 1", "1 ", "0x1", "0X1", "1_0", "_1", "1.0", "1e5", "\xff", "１", "1\x00", "-0", "+", "-", "--1", "1-", "1+1",
		"ffffffffffffffffffffffffffffffff", "100000000000000000000000000000000", "00000000000000000000000000000000", "0000000000000000000000000000000001", "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF",
		"fffffffffffffffffffffffffffffffff", "ffffffffffffffff", "10000000000000000", "1ffffffffffffffff", "aAbBcCdDeEfF0123456789"} {
		hex(s)
	}
	for k := 0; k < c.N(1500, 20000); k++ {
		n := r.Intn(36)
		if r.Intn(3) == 0 {
			n = 31 + r.Intn(3)
		}
		s := ""
		for i := 0; i < n; i++ {
			s += string("0123456789abcdefABCDEF"[r.Intn(22)])
		}
		if r.Intn(3) == 0 && n > 0 {
			i := r.Intn(n)
			s = s[:i] + []string{"g", "-", "+", "_", " ", "x", "G", "\n", ".", "\x80"}[r.Intn(10)] + s[i+r.Intn(2):]
		}
		hex(s)
	}
	v4 := func(s string) {
		g.Add(callOp(func() M {
			a := federation.NodeIDFromV4Generator(s)
			b := federation.NodeIDFromV4Generator(s)
			return M{"op": "v4", "u": unitsJ(s), "id": nidJ(a), "again": nidJ(b)}
		}))
	}
	for _, s := range []string{"", ".", "_", "N.", "N_", ".1", "_1", "N.1", "N_1", "N.1.2", "N_1_2", "N.1_2", "N_1.2", "N.x", "N.1x", "N.x1", "N.-1", "N.+1", "N. 1", "N.1 ", "N.01", "N.0", "N.00", "N.1_", "N.1e3", "N.0x1",
		"N.16777215", "N.16777216", "N.16777217", "N.4294967295", "N.18446744073709551615", "N.18446744073709551616", "N.018446744073709551615", "N.99999999999999999999", "nodetype-name.7", "\U0001F600.3", "日本_12", "\xff\xfe.4", "N.１"} {
		v4(s)
	}
	for k := 0; k < c.N(500, 8000); k++ {
		v4(rndName(r))
	}
	// instances of one name
	for k := 0; k < c.N(6, 60); k++ {
		b := rndName(r)
		s := r.Uint32()
		for i := uint32(0); i < 5; i++ {
			v4(b + "." + strconv.FormatUint(uint64(s%1000000+i), 10))
		}
	}
	// binary form
	for k := 0; k < c.N(300, 3000); k++ {
		a, b, e := rndNID(r), rndNID(r), rndNID(r)
		g.Add(callOp(func() M {
			v := struct {
				A federation.NodeID
				R federation.NodeIdRange
			}{a, federation.NodeIdRange{Begin: b, End: e}}
			out, err := serialization.Marshal(&v)
			w := v
			w.A, w.R = federation.NodeID{}, federation.NodeIdRange{}
			err2 := serialization.Unmarshal(out, &w)
			return M{"op": "enc", "a": nidJ(a), "b": nidJ(b), "c": nidJ(e), "out": bytesJ(out), "ok": err == nil && err2 == nil, "back": [][]int{nidJ(w.A), nidJ(w.R.Begin), nidJ(w.R.End)}}
		}))
	}
	for k := 0; k < c.N(300, 3000); k++ {
		meta, cnt := byte(0x84), byte(16)
		n := 16
		if r.Intn(2) == 0 {
			meta = []byte{0x83, 0x04, 0x03, 0x85, 0x8c, 0x0c, 0x00, 0x8d, 0x88, 0x86, 0x80}[r.Intn(11)]
		} else if r.Intn(3) > 0 {
			cnt = []byte{0, 1, 8, 15, 17, 24, 32, 63}[r.Intn(8)]
			n = int(cnt)
		}
		body := []byte{meta, cnt}
		for i := 0; i < n; i++ {
			body = append(body, byte(r.Intn(256)))
		}
		in := append([]byte{0, byte(len(body) + 11), 0, 0, 0, 0, 0, 0, 0, 0x1f}, append(append([]byte{}, body...), 0x2f, 0x3f)...)
		g.Add(callOp(func() M {
			var v struct{ A federation.NodeID }
			err := serialization.Unmarshal(in, &v)
			return M{"op": "dec", "in": bytesJ(body), "ok": err == nil, "id": nidJ(v.A)}
		}))
	}
	g.Flush()
	// one trace for the names that are hashed only
	m := &Group{o: c.Out, name: "md5", size: 1 << 20}
	seen := map[string]bool{}
	for k := 0; k < c.N(150, 600); k++ {
		s := rndName(r)
		if k < 3 {
			s = []string{"", "a", "abc"}[k]
		}
		if !isASCII(s) { // the trace names it by its UTF-16 form
			continue
		}
		if seen[s] && r.Intn(2) == 0 {
			continue
		}
		seen[s] = true
		m.Add(callOp(func() M {
			return M{"op": "md5", "u": unitsJ(s), "id": nidJ(federation.NodeIDFromMD5(s)), "again": nidJ(federation.NodeIDFromMD5(s))}
		}))
	}
	m.Flush()
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// i64J: sign and decimal digits
func i64J(v int64) M {
	s := strconv.FormatInt(v, 10)
	n := v < 0
	if n {
		s = s[1:]
	}
	d := []int{}
	if v != 0 {
		for i := 0; i < len(s); i++ {
			d = append(d, int(s[i]-'0'))
		}
	}
	return M{"n": n, "d": d}
}

func drvC01(c *Ctx) {
	r := c.Rand(1)
	g := &Group{o: c.Out, name: "span", size: 50}
	vals := []int64{0, 1, -1, 49, 50, 51, 99, 100, 101, -49, -50, -51, -99, -100, -101, 199, 200, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1,
		math.MaxInt64 / 100, math.MaxInt64/100 + 1, math.MaxInt64/100 - 1, math.MinInt64 / 100, math.MinInt64/100 - 1, math.MinInt64/100 + 1, 1 << 53, 1<<53 + 1, -1<<53 - 1, int64(time.Hour), int64(time.Second), int64(10000 * time.Hour)}
	for k := 0; k < c.N(4000, 60000); k++ {
		v := int64(r.Uint64()) >> uint(r.Intn(64))
		if r.Intn(4) == 0 {
			v += (math.MaxInt64/100 - v) / 2
		}
		vals = append(vals, v)
	}
	from := func(v int64) int64 { return int64(common.TimeSpanFromDuration(time.Duration(v))) }
	for k, v := range vals {
		g.Add(callOp(func() M {
			s := from(v)
			return M{"op": "fromdur", "d": i64J(v), "s": i64J(s), "back": i64J(int64(common.TimeSpan(s).ToDuration()))}
		}))
		g.Add(callOp(func() M { return M{"op": "todur", "s": i64J(v), "d": i64J(int64(common.TimeSpan(v).ToDuration()))} }))
		w := vals[r.Intn(len(vals))]
		if k%2 == 0 {
			w = v + int64(r.Intn(200)) - 100
		}
		if v > w {
			v, w = w, v
		}
		g.Add(callOp(func() M {
			return M{"op": "order", "d1": i64J(v), "d2": i64J(w), "s1": i64J(from(v)), "s2": i64J(from(w))}
		}))
	}
	g.Add(callOp(func() M {
		return M{"op": "todur", "s": i64J(int64(common.TimeSpanMax)), "d": i64J(int64(common.TimeSpanMax.ToDuration()))}
	}))
	g.Flush()
}

func init() {
	drivers["F01"] = drvF01
	drivers["F08"] = drvF08
	drivers["C01"] = drvC01
}
