package prim

import (
	"math"
	"math/big"

	"zsverif/zs"
)

// Exhaustive calls f with cases that together cover a part of the domain
// completely: all 16-bit variable-length integers and encodings, all
// boundaries of the others, all half-precision numbers with their midpoints,
// all widths of bit fields at all offsets in a byte.
func Exhaustive(prop string, f func(*Case)) {
	switch prop {
	case "C07":
		for _, k := range []string{"varint16", "varuint16"} {
			lo, hi := GoRange(k)
			c := &Case{Mode: "history"}
			for n := lo.Int64(); n <= hi.Int64(); n++ {
				c.Ops = append(c.Ops, Op{K: k, V: big.NewInt(n).String(), T: n%2 == 0})
				if len(c.Ops) == 97 {
					c.Ops = append(c.Ops, Op{K: "rawbool", N: 1})
					f(c)
					c = &Case{Mode: "history"}
				}
			}
			f(c)
		}
		// every two bytes, as every type (with more bytes behind them)
		for x := 0; x < 1<<16; x++ {
			for i, k := range VarKinds {
				if i >= 2 && x%5 != 0 && k != "varuint16" && k != "varint16" {
					continue
				}
				f(&Case{Mode: "decode", Buf: []byte{byte(x >> 8), byte(x)}, Ops: []Op{{K: k}, {K: k}}})
			}
		}
		// what a number of bytes can hold, around every power of two
		for _, k := range VarKinds {
			lo, hi := GoRange(k)
			for off := 0; off < 8; off++ {
				c := &Case{Mode: "history"}
				for i := 0; i < off; i++ {
					c.Ops = append(c.Ops, Op{K: "rawbool", N: 1})
				}
				for p := uint(0); p <= 64; p++ {
					for d := int64(-3); d <= 3; d++ {
						for s := 0; s < 2; s++ {
							n := new(big.Int).Lsh(big.NewInt(1), p)
							n.Add(n, big.NewInt(d))
							if s == 1 {
								n.Neg(n)
							}
							if n.Cmp(lo) >= 0 && n.Cmp(hi) <= 0 {
								c.Ops = append(c.Ops, Op{K: k, V: n.String(), T: d%2 == 0})
							}
						}
					}
				}
				f(c)
			}
			// every truncation of boundary values
			for p := uint(0); p < 64; p++ {
				n := new(big.Int).Lsh(big.NewInt(1), p)
				b := zs.VarBytes(k, n)
				for i := 0; i < len(b); i++ {
					f(&Case{Mode: "decode", Buf: b[:i], Ops: []Op{{K: k}}})
				}
			}
		}
	case "C08":
		// every half-precision number read, and written with its midpoints
		for h := 0; h < 1<<16; h++ {
			f(&Case{Mode: "decode", Buf: []byte{byte(h >> 8), byte(h)}, Ops: []Op{{K: "f16", T: h%2 == 1}}})
		}
		c := &Case{Mode: "history"}
		add := func(v float32) {
			c.Ops = append(c.Ops, Op{K: "f16", F: uint64(math.Float32bits(v))})
			if len(c.Ops) == 101 {
				c.Ops = append(c.Ops, Op{K: "rawbool"})
				f(c)
				c = &Case{Mode: "history"}
			}
		}
		inf := float32(math.Inf(1))
		for h := 0; h < 0x7c00; h++ {
			a, b := halfValue(uint16(h)), 65536.0
			if h < 0x7bff {
				b = halfValue(uint16(h + 1))
			}
			m := float32((a + b) / 2)
			for _, v := range []float32{float32(a), m, math.Nextafter32(m, inf), math.Nextafter32(m, 0), math.Nextafter32(float32(a), inf)} {
				add(v)
				add(-v)
			}
		}
		f(c)
		// every width, boundary values, every offset
		for n := 1; n <= 255; n++ {
			for off := 0; off < 8; off++ {
				c := &Case{Mode: "history"}
				for _, s := range []bool{true, false} {
					lo, hi := zs.Range(s, min(n, 64))
					glo, ghi := zs.Range(s, 64)
					for _, b := range []*big.Int{lo, hi, big.NewInt(0), glo, ghi, big.NewInt(-1)} {
						for d := int64(-1); d <= 1; d++ {
							v := new(big.Int).Add(b, big.NewInt(d))
							if v.Cmp(glo) >= 0 && v.Cmp(ghi) <= 0 {
								for i := 0; i < off; i++ {
									c.Ops = append(c.Ops, Op{K: "rawbool", N: i % 2})
								}
								c.Ops = append(c.Ops, Op{K: pick(s, "sbits", "ubits"), N: n, V: v.String()})
							}
						}
					}
				}
				f(c)
				f(&Case{Mode: "decode", Buf: []byte{0xff, 0x80, 1, 2, 3, 4, 5, 0xff, 0xff, 0xff, 0xff, 0xff}, Ops: []Op{{K: "raw", N: off + 1}, {K: "sbits", N: n, T: off%2 == 0}}})
				f(&Case{Mode: "decode", Buf: []byte{0xff, 0x80, 1, 2, 3, 4, 5, 0xff, 0xff, 0xff, 0xff, 0xff}, Ops: []Op{{K: "raw", N: off + 1}, {K: "ubits", N: n, T: off%2 == 0}}})
			}
		}
		// every value of the narrow bit fields
		for n := 1; n <= 10; n++ {
			c := &Case{Mode: "history"}
			for v := 0; v < 1<<n; v++ {
				c.Ops = append(c.Ops, Op{K: "ubits", N: n, V: big.NewInt(int64(v)).String(), T: v%2 == 1}, Op{K: "sbits", N: n, V: big.NewInt(int64(v - 1<<(n-1))).String(), T: v%3 == 1})
			}
			f(c)
		}
	case "C09":
		for n := 1; n < 256; n++ {
			c := &Case{Mode: "align"}
			for pos := 0; pos < 520; pos++ {
				c.Ops = append(c.Ops, Op{K: "align", N: n, V: big.NewInt(int64(pos)).String()})
			}
			f(c)
			// every offset from a boundary
			for off := 0; off <= 2*n && off < 300; off++ {
				c := &Case{Mode: "history", Sink: n % Sinks, Src: n % Sources}
				for left := off; left > 0; {
					k := min(left, 1+left%64)
					c.Ops = append(c.Ops, Op{K: "raw", N: k, V: "18446744073709551615"})
					left -= k
				}
				c.Ops = append(c.Ops, Op{K: "align", N: n}, Op{K: "rawbool", N: 1}, Op{K: "align", N: n}, Op{K: "align", N: n}, Op{K: "raw", N: 3, V: "5"})
				f(c)
			}
		}
		for n := 1; n <= 64; n++ {
			for off := 0; off < 8; off++ {
				for v := 0; v < 4; v++ {
					x := []uint64{0, math.MaxUint64, 0xaaaaaaaaaaaaaaaa, 0x123456789abcdef1}[v]
					c := &Case{Mode: "history", Sink: v % Sinks, Src: (v + off) % Sources, Ops: []Op{{K: "raw", N: off + 1, V: "0"}, {K: "raw", N: n, V: u(x)}, {K: "rawunsafe", N: n, V: u(x >> (64 - n))}, {K: "rawbyte", V: "165"}, {K: "rawbool", N: 1}, {K: "rawbytes", B: []byte{1, 2, 0xff}}, {K: "raw", N: n, V: u(^x)}}}
					f(c)
				}
			}
		}
	}
}

// Shrink makes a failing case smaller.
func Shrink(c *Case) *Case {
	budget := 3000
	fails := func(x *Case) bool {
		if budget <= 0 {
			return false
		}
		budget--
		return x.Run() != nil
	}
	cur := *c
	try := func(x Case) bool {
		if fails(&x) {
			cur = x
			return true
		}
		return false
	}
	for progress := true; progress && budget > 0; {
		progress = false
		for n := len(cur.Ops); n >= 1; n /= 2 {
			for i := 0; i+n <= len(cur.Ops); {
				x := cur
				x.Ops = append(append([]Op{}, cur.Ops[:i]...), cur.Ops[i+n:]...)
				if len(x.Ops) < len(cur.Ops) && try(x) {
					progress = true
				} else {
					i += n
				}
			}
		}
		for _, x := range []func(*Case){func(x *Case) { x.Sink = 0 }, func(x *Case) { x.Src = 0 }, func(x *Case) { x.Cut = 0 }, func(x *Case) { x.Cut-- }, func(x *Case) { x.Fail-- },
			func(x *Case) { x.Buf = x.Buf[:len(x.Buf)/2] }, func(x *Case) { x.Buf = x.Buf[:max(0, len(x.Buf)-1)] }} {
			y := cur
			x(&y)
			if y.Cut < 0 || y.Fail < min(cur.Fail, 1) || y.Mode == cur.Mode && y.Cut == cur.Cut && y.Fail == cur.Fail && y.Src == cur.Src && y.Sink == cur.Sink && len(y.Buf) == len(cur.Buf) {
				continue
			}
			if try(y) {
				progress = true
			}
		}
		for i := range cur.Ops {
			for _, m := range simpler(cur.Ops[i]) {
				x := cur
				x.Ops = append([]Op{}, cur.Ops...)
				x.Ops[i] = m
				if try(x) {
					progress = true
					break
				}
			}
		}
		for i := range cur.Buf {
			for _, v := range []byte{0, 0x80} {
				if cur.Buf[i] != v && cur.Buf[i] != 0 {
					x := cur
					x.Buf = clone(cur.Buf)
					x.Buf[i] = v
					if try(x) {
						progress = true
					}
				}
			}
		}
	}
	return &cur
}

func simpler(o Op) []Op {
	var out []Op
	if o.T {
		x := o
		x.T = false
		out = append(out, x)
	}
	if o.V != "" && o.V != "0" {
		n := o.big()
		for _, m := range []*big.Int{new(big.Int), big.NewInt(1), new(big.Int).Quo(n, big.NewInt(2)), new(big.Int).Sub(n, big.NewInt(int64(n.Sign())))} {
			if new(big.Int).Abs(m).Cmp(new(big.Int).Abs(n)) < 0 {
				x := o
				x.V = m.String()
				out = append(out, x)
			}
		}
	}
	if len(o.B) > 0 && o.K != "extern" {
		x := o
		x.B = clone(o.B[:len(o.B)/2])
		if x.K == "bytes" {
			x.U = o.U - uint64(len(o.B)-len(x.B))
			if o.U < uint64(len(o.B)-len(x.B)) {
				x.U = 0
			}
		}
		out = append(out, x)
		x.B = make([]byte, len(o.B))
		x.U = o.U
		zero := true
		for _, b := range o.B {
			zero = zero && b == 0
		}
		if !zero {
			out = append(out, x)
		}
	}
	if o.K == "extern" && o.U > 0 && len(o.B) > 0 {
		x := o
		x.B = clone(o.B[:len(o.B)-1])
		if x.U >= 8 {
			x.U -= 8
			out = append(out, x)
		}
	}
	return out
}
