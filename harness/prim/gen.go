package prim

import (
	"math"
	"math/big"

	"zsverif/zs"
)

// Gen makes operations.
type Gen struct {
	R *zs.Rng
	// Prop selects what the operations are about.
	Prop string
}

func (g *Gen) varOp() Op {
	r := g.R
	k := zs.Pick(r, VarKinds)
	lo, hi := GoRange(k)
	if r.P(.6) {
		lo, hi = zs.VarRange(k)
	}
	n := r.BigIn(lo, hi)
	if r.P(.2) { // around what a number of bytes can hold
		glo, ghi := GoRange(k)
		b := new(big.Int).Lsh(big.NewInt(1), uint(r.In(5, 64)))
		b.Add(b, big.NewInt(int64(r.In(-2, 1))))
		if r.P(.5) {
			b.Neg(b)
		}
		if b.Cmp(glo) >= 0 && b.Cmp(ghi) <= 0 {
			n = b
		}
	}
	return Op{K: k, V: n.String(), T: r.P(.3)}
}

func (g *Gen) half() uint64 {
	r := g.R
	var f float32
	switch r.W(3, 3, 2, 2, 2) {
	case 0:
		f = float32(halfValue(uint16(r.U64()) &^ 0x400)) // finite or not, an exact value
	case 1: // near a value or a midpoint
		h := uint16(r.N(0x7c00))
		a, b := halfValue(h), halfValue(h)
		if h < 0x7bff {
			b = halfValue(h + 1)
		}
		f = float32((a + b) / 2)
		for i := r.In(-2, 2); i != 0; {
			if i > 0 {
				f, i = math.Nextafter32(f, float32(math.Inf(1))), i-1
			} else {
				f, i = math.Nextafter32(f, 0), i+1
			}
		}
		if r.P(.5) {
			f = -f
		}
	case 2:
		f = math.Float32frombits(uint32(r.U64()))
	case 3:
		f = zs.Pick(r, []float32{0, float32(math.Copysign(0, -1)), float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), 65504, 65519, 65520, 65521, 65536, -65520, 6e-8, 3e-8, 2.9e-8, 1e-45, math.MaxFloat32, 6.1035156e-05, 6.0975552e-05, 1, -1, .1})
	case 4:
		f = float32(math.Ldexp(float64(r.In(-4096, 4096)), r.In(-30, 10)))
	}
	return uint64(math.Float32bits(f))
}

func (g *Gen) blobLen() int {
	r := g.R
	switch r.W(6, 3, 2, 1) {
	case 0:
		return r.N(6)
	case 1:
		return r.N(40)
	case 2:
		return r.In(120, 140)
	}
	return zs.Pick(r, []int{255, 256, 257, 1000, 4095, 4096, 4097, 5000, 9000, 16383, 16384, 16385})
}

func (g *Gen) blob(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.R.U64())
	}
	return b
}

func (g *Gen) fixedOp() Op {
	r := g.R
	t := r.P(.3)
	switch r.W(2, 5, 6, 3, 2, 2, 2, 2, 3) {
	case 0:
		return Op{K: "bool", N: r.N(2), T: t}
	case 1:
		s := r.P(.5)
		n := zs.Pick(r, []int{8, 16, 32, 64})
		lo, hi := zs.Range(s, n)
		return Op{K: pick(s, "int", "uint"), N: n, V: r.BigIn(lo, hi).String(), T: t}
	case 2:
		s := r.P(.5)
		n := r.In(1, 64)
		if r.P(.1) {
			n = zs.Pick(r, []int{65, 66, 72, 127, 128, 129, 192, 254, 255})
		}
		lo, hi := zs.Range(s, min(n, 64))
		if r.P(.25) { // possibly outside
			w := 64
			switch {
			case t && n <= 8:
				w = 8
			case t && n <= 16:
				w = 16
			case t && n <= 32:
				w = 32
			}
			lo, hi = zs.Range(s, w)
		}
		return Op{K: pick(s, "sbits", "ubits"), N: n, V: r.BigIn(lo, hi).String(), T: t}
	case 3:
		return Op{K: "f16", F: g.half(), T: t}
	case 4:
		return Op{K: "f32", F: uint64(uint32(g.floatBits(8, 23))), T: t}
	case 5:
		return Op{K: "f64", F: g.floatBits(11, 52), T: t}
	case 6:
		return Op{K: "string", B: g.blob(g.blobLen()), T: t}
	case 7:
		b := g.blob(g.blobLen())
		o := Op{K: "bytes", B: b, U: uint64(len(b)), T: t}
		if r.P(.1) {
			o.U = uint64(max(0, len(b)+zs.Pick(r, []int{-1, 1, 2, 100, -len(b)})))
		}
		return o
	}
	n := g.blobLen()*8 - r.N(8)
	if n < 0 {
		n = 0
	}
	b := g.blob((n + 7) / 8)
	o := Op{K: "extern", B: b, U: uint64(n), T: t}
	if r.P(.1) {
		o.U = uint64(len(b)*8 + r.In(1, 70))
	}
	return o
}

func pick(b bool, x, y string) string {
	if b {
		return x
	}
	return y
}

func (g *Gen) floatBits(e, m int) uint64 {
	r := g.R
	x := r.U64() & (1<<(e+m+1) - 1)
	if r.P(.4) {
		exp := zs.Pick(r, []uint64{0, 1, 1<<e - 1, 1<<e - 2, 1 << (e - 1), 1<<(e-1) - 1})
		x = x&^(uint64(1<<e-1)<<m) | exp<<m
	}
	if r.P(.3) {
		x &^= 1<<m - 1
	}
	return x
}

// StreamOp is an operation on the stream itself.
func (g *Gen) StreamOp() Op {
	r := g.R
	switch r.W(6, 2, 3, 2, 3, 4) {
	case 0:
		n := r.In(1, 64)
		return Op{K: "raw", N: n, V: u(r.U64())} // with bits beyond the width
	case 1:
		n := r.In(1, 64)
		return Op{K: "rawunsafe", N: n, V: u(r.U64() >> (64 - n))}
	case 2:
		return Op{K: "rawbool", N: r.N(2)}
	case 3:
		return Op{K: "rawbyte", V: u(uint64(byte(r.U64())))}
	case 4:
		return Op{K: "rawbytes", B: g.blob(zs.Pick(r, []int{0, 1, 2, 3, 5, 8, 15, 17, 64, 200}))}
	}
	n := r.In(1, 20)
	if r.P(.4) {
		n = zs.Pick(r, []int{1, 2, 4, 8, 16, 32, 64, 128, 255, 254, 65, 127, 129, 63, 24, 0})
	}
	return Op{K: "align", N: n}
}

func u(x uint64) string { return new(big.Int).SetUint64(x).String() }

// Case makes one case for a property.
func (g *Gen) Case() *Case {
	r := g.R
	c := &Case{Mode: "history", Sink: r.N(Sinks), Src: r.N(Sources)}
	op := func() Op {
		switch g.Prop {
		case "C07":
			if r.P(.25) {
				return g.StreamOp()
			}
			return g.varOp()
		case "C08":
			if r.P(.25) {
				return g.StreamOp()
			}
			return g.fixedOp()
		}
		switch r.W(14, 1, 1) {
		case 1:
			return g.varOp()
		case 2:
			return g.fixedOp()
		}
		return g.StreamOp()
	}
	n := r.In(1, 12)
	if r.P(.1) {
		n = r.In(12, 60)
	}
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, op())
	}
	switch r.W(12, 4, 3) {
	case 1: // arbitrary bytes
		c.Mode = "decode"
		c.Buf = g.decodable(c.Ops)
	case 2:
		c.Mode = "failing"
		bits := 0
		for i := range c.Ops {
			if c.Ops[i].K == "f16" {
				bits += 16
			} else if b, ok := kindOf(&c.Ops[i]).enc(&c.Ops[i], bits); ok {
				bits += len(b)
			}
		}
		c.Fail = 1 + r.N(bits/8+2)
	default:
		if r.P(.3) {
			c.Cut = r.In(1, 4)
			if r.P(.3) {
				c.Cut = r.In(1, 100)
			}
		}
	}
	return c
}

// decodable makes bytes that reach deep into the operations.
func (g *Gen) decodable(ops []Op) []byte {
	r := g.R
	n := r.In(0, 30)
	if r.P(.1) {
		n = r.In(30, 300)
	}
	b := g.blob(n)
	switch r.N(4) {
	case 0: // long variable-length integers
		for i := range b {
			b[i] |= 0x80
		}
	case 1: // short ones
		for i := range b {
			if r.P(.7) {
				b[i] &= 0x87
			}
		}
	case 2:
		for i := range b {
			b[i] = zs.Pick(r, []byte{0, 0x80, 0xff, 0x7f, 1, 0xc0, 0x40, 0x81})
		}
	}
	return b
}
