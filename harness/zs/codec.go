package zs

import (
	"errors"
	"fmt"
	"math"
	"math/big"
)

// BW writes bits; Base is the stream position of its first bit.
type BW struct {
	Buf  []byte
	N    int
	Base int
}

// Bit appends a bit.
func (w *BW) Bit(b bool) {
	if w.N%8 == 0 {
		w.Buf = append(w.Buf, 0)
	}
	if b {
		w.Buf[w.N/8] |= 0x80 >> (w.N % 8)
	}
	w.N++
}

// Bits appends the low n bits.
func (w *BW) Bits(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		w.Bit(v>>uint(i)&1 == 1)
	}
}

// Align pads with zeros.
func (w *BW) Align(k int) {
	for (w.Base+w.N)%k != 0 {
		w.Bit(false)
	}
}

// BR reads bits.
type BR struct {
	Lenient, Wrapped bool
	Buf              []byte
	N                int
	Base             int
	Lim              int // bits available
}

// ErrEOF is the end of the input.
var ErrEOF = errors.New("end of input")

type decErr struct{ err error }

func fail(err error) { panic(decErr{err}) }

func (r *BR) bit() bool {
	if r.N >= r.Lim {
		fail(ErrEOF)
	}
	b := r.Buf[r.N/8]&(0x80>>(r.N%8)) != 0
	r.N++
	return b
}

func (r *BR) bits(n int) uint64 {
	if r.N+n > r.Lim {
		fail(ErrEOF)
	}
	var v uint64
	for i := 0; i < n; i++ {
		v <<= 1
		if r.Buf[r.N/8]&(0x80>>(r.N%8)) != 0 {
			v |= 1
		}
		r.N++
	}
	return v
}

func (r *BR) align(k int) {
	for (r.Base+r.N)%k != 0 {
		r.bit()
	}
}

type varSpec struct {
	signed bool
	max    int // bytes
}

var varSpecs = map[string]varSpec{
	"varint16": {true, 2}, "varint32": {true, 4}, "varint64": {true, 8}, "varint": {true, 9},
	"varuint16": {false, 2}, "varuint32": {false, 4}, "varuint64": {false, 8}, "varuint": {false, 9}, "varsize": {false, 5},
}

// VarBytes encodes a variable length integer; nil when out of range.
func VarBytes(kind string, n *big.Int) []byte {
	sp := varSpecs[kind]
	lo, hi := VarRange(kind)
	if n.Cmp(lo) < 0 || n.Cmp(hi) > 0 {
		return nil
	}
	if kind == "varint" && n.Cmp(lo) == 0 {
		return []byte{0x80}
	}
	abs := new(big.Int).Abs(n)
	for k := 1; k <= sp.max; k++ {
		// bits available in k bytes
		bitsN := 7*k + 0
		if sp.signed {
			bitsN--
		}
		if k == sp.max {
			bitsN++ // no continuation bit in the last byte
		}
		if abs.BitLen() > bitsN {
			continue
		}
		out := make([]byte, k)
		rest := new(big.Int).Set(abs)
		take := func(n uint) byte {
			m := new(big.Int).And(rest, big.NewInt(1<<n-1))
			rest.Rsh(rest, n)
			return byte(m.Uint64())
		}
		for i := k - 1; i >= 0; i-- {
			width := uint(7)
			if i == sp.max-1 {
				width = 8
			}
			if i == 0 && sp.signed {
				width--
			}
			out[i] = take(width)
			if i < k-1 { // more bytes follow
				out[i] |= 1 << width
			}
		}
		if sp.signed && n.Sign() < 0 {
			out[0] |= 0x80
		}
		return out
	}
	return nil
}

// VarDecode decodes from a byte source.
func VarDecode(kind string, next func() byte) *big.Int {
	sp := varSpecs[kind]
	v := new(big.Int)
	neg := false
	for i := 0; i < sp.max; i++ {
		b := next()
		width := uint(7)
		if i == sp.max-1 {
			width = 8
		}
		if i == 0 && sp.signed {
			neg = b&0x80 != 0
			b &= 0x7f
			if sp.max == 9 && neg && b == 0 {
				lo, _ := Range(true, 64)
				return lo
			}
			width--
		}
		v.Lsh(v, width)
		v.Or(v, big.NewInt(int64(b)&(1<<width-1)))
		if i == sp.max-1 || b&(1<<width) == 0 {
			break
		}
	}
	if neg {
		v.Neg(v)
	}
	return v
}

// EncErr is returned for values that cannot be encoded.
type EncErr struct{ Why string }

func (e EncErr) Error() string { return e.Why }

func encFail(f string, a ...any) { panic(EncErr{fmt.Sprintf(f, a...)}) }

func (w *BW) uintN(n *big.Int, bits int) {
	lo, hi := Range(false, bits)
	if n.Cmp(lo) < 0 || n.Cmp(hi) > 0 {
		encFail("%v out of bit:%d", n, bits)
	}
	w.Bits(n.Uint64(), bits)
}

func (w *BW) intN(n *big.Int, bits int) {
	lo, hi := Range(true, bits)
	if n.Cmp(lo) < 0 || n.Cmp(hi) > 0 {
		encFail("%v out of int:%d", n, bits)
	}
	w.Bits(uint64(n.Int64()), bits)
}

// VarSize writes a length.
func (w *BW) VarSize(n uint64) {
	w.varN("varsize", new(big.Int).SetUint64(n))
}

func (w *BW) varN(kind string, n *big.Int) {
	b := VarBytes(kind, n)
	if b == nil {
		encFail("%v out of %s", n, kind)
	}
	for _, x := range b {
		w.Bits(uint64(x), 8)
	}
}

// delta packing context
type dctx struct {
	n, sum, first, maxBit int
	prev                  *big.Int
	packed, started       bool
}

type node struct {
	ch  map[int]*node
	tag *dctx
	ctx *dctx
}

func (n *node) child(i int) *node {
	if n.ch == nil {
		n.ch = map[int]*node{}
	}
	if n.ch[i] == nil {
		n.ch[i] = &node{}
	}
	return n.ch[i]
}

func (n *node) delta() *dctx {
	if n.ctx == nil {
		n.ctx = &dctx{}
	}
	return n.ctx
}

func (n *node) tagCtx() *dctx {
	if n.tag == nil {
		n.tag = &dctx{}
	}
	return n.tag
}

func (c *dctx) init(n *big.Int, size int) {
	c.n++
	c.sum += size
	if c.prev == nil {
		c.first = size
	} else if c.maxBit <= 62 {
		c.packed = true
		d := new(big.Int).Sub(n, c.prev)
		if b := d.BitLen(); b > c.maxBit { // BitLen is of the absolute value
			c.maxBit = b
			if b > 62 {
				c.packed = false
			}
		}
	}
	c.prev = n
}

func (c *dctx) write(w *BW, n *big.Int, plain func()) {
	if !c.started {
		c.started = true
		if c.packed {
			d := 0
			if c.maxBit > 0 {
				d = c.maxBit + 1
			}
			if 1+6+c.first+(c.n-1)*d >= 1+c.sum {
				c.packed = false
			}
		}
		w.Bit(c.packed)
		if c.packed {
			w.Bits(uint64(c.maxBit), 6)
		}
		c.prev = n
		plain()
		return
	}
	if !c.packed {
		plain()
		return
	}
	if c.maxBit > 0 {
		w.intN(new(big.Int).Sub(n, c.prev), c.maxBit+1)
		c.prev = n
	}
}

func (c *dctx) read(r *BR, lo, hi *big.Int, plain func() *big.Int) *big.Int {
	if !c.started {
		c.started = true
		c.packed = r.bit()
		if c.packed {
			c.maxBit = int(r.bits(6))
		}
		c.prev = plain()
		return c.prev
	}
	if !c.packed {
		return plain()
	}
	if c.maxBit > 0 {
		n := c.maxBit + 1
		u := r.bits(n)
		d := new(big.Int).SetUint64(u)
		if u>>(uint(n)-1)&1 == 1 {
			d.Sub(d, new(big.Int).Lsh(big.NewInt(1), uint(n)))
		}
		c.prev = new(big.Int).Add(c.prev, d)
		if c.prev.Cmp(lo) < 0 || c.prev.Cmp(hi) > 0 {
			if !r.Lenient {
				fail(ErrRange)
			}
			r.Wrapped = true
			return wrapTo(c.prev, lo, hi)
		}
	}
	return c.prev
}

// PackInts writes the elements of a packed array of integers, which have the
// given plain encodings; before is called ahead of each.
func PackInts(w *BW, n []*big.Int, plain []func(w *BW), before func()) {
	c := &dctx{}
	for i := range n {
		x := &BW{}
		plain[i](x)
		c.init(n[i], x.N)
	}
	for i := range n {
		before()
		c.write(w, n[i], func() { plain[i](w) })
	}
}

// wrapTo is what a decoder without range checks makes of n.
func wrapTo(n, lo, hi *big.Int) *big.Int {
	bits := uint(hi.BitLen())
	if lo.Sign() < 0 {
		bits++
	}
	w := uint(8)
	for w < bits {
		w *= 2
	}
	m := new(big.Int).Lsh(big.NewInt(1), w)
	x := new(big.Int).Mod(n, m)
	if lo.Sign() < 0 && x.Bit(int(w)-1) == 1 {
		x.Sub(x, m)
	}
	return x
}

// ErrRange is a delta that leaves the range of its type: no valid value.
var ErrRange = errors.New("decoded value out of range")

// ErrBranch is an unknown union tag or a choice without a matching case.
var ErrBranch = errors.New("no such branch")

// ErrBomb is a declared array length beyond what the oracle follows.
var ErrBomb = errors.New("too many elements")

// ErrUndef is an expression without a defined value.
var ErrUndef = errors.New("expression undefined")

// LeafRange is the range of an integer leaf.
func (c *Codec) LeafRange(rt *RT, env *Env) (lo, hi *big.Int) {
	switch rt.K {
	case "u", "i":
		return Range(rt.K == "i", c.width(rt, env))
	case "vu", "vi":
		return VarRange(rt.Var)
	case "enum", "mask":
		return c.LeafRange(rt.Base, env)
	}
	return nil, nil
}

// Codec is the reference codec.
type Codec struct {
	W *World
	// Lenient follows deltas that leave the range of their type, as decoders
	// do that only check values when encoding; Wrapped tells that there were.
	Lenient, Wrapped bool
	// MaxElems bounds declared array lengths when decoding.
	MaxElems int
	// Stats
	Packed, Deltas int
	mode           int // 0 plain, 1 packed init, 2 packed write
}

func (c *Codec) width(rt *RT, env *Env) int {
	if rt.Len == nil {
		return rt.Bits
	}
	n := c.W.Eval(env, rt.Len).N
	if !n.IsInt64() || n.Int64() < 1 || n.Int64() > 64 {
		undef("bit length %v", n)
	}
	return int(n.Int64())
}

func (c *Codec) leafSize(rt *RT, v *Val, env *Env) int {
	var w BW
	c.leaf(&w, rt, v, env)
	return w.N
}

func f16bits(f float64) uint64 {
	return uint64(F16Bits(float32(f)))
}

// F16Bits rounds to the nearest half float, ties to even.
func F16Bits(f float32) uint16 {
	b := math.Float32bits(f)
	s := uint16(b>>16) & 0x8000
	x := math.Abs(float64(f))
	switch {
	case math.IsNaN(float64(f)):
		return s | 0x7e00
	case math.IsInf(float64(f), 0):
		return s | 0x7c00
	case x >= 65520:
		return s | 0x7c00
	case x < math.Ldexp(1, -14):
		return s | uint16(math.RoundToEven(math.Ldexp(x, 24)))
	}
	fr, e := math.Frexp(x) // x = fr * 2^e, fr in [0.5,1)
	m := math.RoundToEven(math.Ldexp(fr, 11))
	if m == 2048 {
		m = 1024
		e++
	}
	return s | uint16(e-1+15)<<10 | uint16(m-1024)
}

// F16Val is the value of a half float.
func F16Val(b uint16) float64 {
	s := 1.0
	if b&0x8000 != 0 {
		s = -1
	}
	e, m := int(b>>10&31), float64(b&1023)
	switch e {
	case 0:
		return math.Copysign(math.Ldexp(m, -24), s)
	case 31:
		if m == 0 {
			return math.Inf(int(s))
		}
		return math.NaN()
	}
	return s * math.Ldexp(1024+m, e-15-10)
}

func (c *Codec) leaf(w *BW, rt *RT, v *Val, env *Env) {
	switch rt.K {
	case "u":
		w.uintN(v.N, c.width(rt, env))
	case "i":
		w.intN(v.N, c.width(rt, env))
	case "vu", "vi":
		w.varN(rt.Var, v.N)
	case "bool":
		w.Bit(v.B)
	case "f16":
		w.Bits(f16bits(math.Float64frombits(v.F)), 16)
	case "f32":
		w.Bits(uint64(math.Float32bits(float32(math.Float64frombits(v.F)))), 32)
	case "f64":
		w.Bits(v.F, 64)
	case "string", "bytes":
		w.VarSize(uint64(len(v.S)))
		for _, b := range v.S {
			w.Bits(uint64(b), 8)
		}
	case "extern":
		w.VarSize(v.Bits)
		for i := uint64(0); i < v.Bits; i++ {
			w.Bit(v.S[i/8]&(0x80>>(i%8)) != 0)
		}
	case "enum", "mask":
		c.leaf(w, rt.Base, v, env)
	default:
		panic("leaf " + rt.K)
	}
}

// Encode encodes a root object whose first bit is at stream position base.
func (c *Codec) Encode(in *Inst, v *Val, base int) (w *BW, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case EncErr:
				err = e
			case NotDefined:
				err = fmt.Errorf("%w: %s", ErrUndef, e.Why)
			default:
				panic(r)
			}
		}
	}()
	w = &BW{Base: base}
	c.mode = 0
	c.comp(w, in, v, nil)
	return w, nil
}

func (c *Codec) args(rt *RT, env *Env) []*EV {
	var p []*EV
	for i, a := range rt.Args {
		p = append(p, c.W.convertTo(c.W.Eval(env, a), c.W.Pt(rt.In, i)))
	}
	return p
}

// Branch finds the field of a choice: field index, whether a case matched.
func (w *World) Branch(in *Inst, v *Val) (field int, ok bool) {
	sel := w.Eval(&Env{W: w, In: in, V: v}, in.D.Sel)
	for _, cs := range in.D.Cases {
		for _, e := range cs.Conds {
			if w.caseMatches(in, sel, e) {
				return cs.Field, true
			}
		}
	}
	if in.D.HasDef {
		return in.D.Def, true
	}
	return -1, false
}

func (w *World) caseMatches(in *Inst, sel *EV, e *Expr) bool {
	if e.Op == "bareitem" {
		for i, it := range sel.RT.D.Items {
			if it.Name == e.Text {
				return sel.N.Cmp(sel.RT.Items[i]) == 0
			}
		}
		panic("item " + e.Text)
	}
	x := w.Eval(&Env{W: w, In: in}, e)
	if sel.K == 'b' {
		return sel.B == x.B
	}
	return sel.N.Cmp(x.N) == 0
}

// comp writes a compound. nd nil: plain.
func (c *Codec) comp(w *BW, in *Inst, v *Val, nd *node) {
	env := &Env{W: c.W, In: in, V: v}
	switch in.D.Kind {
	case "struct":
		for i := range in.D.Fields {
			c.field(w, in, i, v, env, nd)
		}
	case "union":
		if v.Tag < 0 || v.Tag >= len(in.D.Fields) {
			encFail("no branch")
		}
		tag := big.NewInt(int64(v.Tag))
		if nd == nil {
			w.varN("varsize", tag)
		} else if c.mode == 1 {
			nd.tagCtx().init(tag, 8*len(VarBytes("varsize", tag)))
		} else {
			nd.tagCtx().write(w, tag, func() { w.varN("varsize", tag) })
		}
		c.field(w, in, v.Tag, v, env, nd)
	case "choice":
		f, ok := c.W.Branch(in, v)
		if !ok {
			encFail("no case")
		}
		if f >= 0 {
			c.field(w, in, f, v, env, nd)
		}
	default:
		panic("compound " + in.D.Kind)
	}
}

func (c *Codec) field(w *BW, in *Inst, i int, v *Val, env *Env, nd *node) {
	f := in.D.Fields[i]
	rt := c.W.F(in, i)
	x := v.O[i]
	if f.If != nil && !c.W.Eval(env, f.If).B {
		return
	}
	init := nd != nil && c.mode == 1
	if f.Optional {
		if !init {
			w.Bit(x != nil)
		}
		if x == nil {
			return
		}
	}
	if x == nil {
		encFail("field %s absent", f.Name)
	}
	if f.Align > 0 && !init {
		w.Align(f.Align)
	}
	if f.Array == NoArray {
		var ch *node
		if nd != nil {
			ch = nd.child(i)
		}
		c.elem(w, rt, x, env, ch)
		return
	}
	if init {
		return // nested arrays have contexts of their own
	}
	if f.Array == FixedArray {
		n := c.W.Eval(env, f.Len).N
		if !n.IsInt64() || int64(len(x.A)) != n.Int64() {
			encFail("field %s has %d elements, not %v", f.Name, len(x.A), n)
		}
	} else {
		w.VarSize(uint64(len(x.A)))
	}
	packed := (f.Packed || nd != nil) && (rt.Packable() || rt.K == "comp")
	var an *node
	at := func(k int) *Env {
		e := *env
		e.Index, e.HasIndex = k, true
		return &e
	}
	if packed && len(x.A) > 0 {
		c.Packed++
		an = &node{}
		save := c.mode
		c.mode = 1
		for k, y := range x.A {
			c.elem(w, rt, y, at(k), an)
		}
		c.mode = 2
		for k, y := range x.A {
			c.elem(w, rt, y, at(k), an)
		}
		c.mode = save
		if an.ctx != nil && an.ctx.packed {
			c.Deltas++
		}
		return
	}
	for k, y := range x.A {
		c.elem(w, rt, y, at(k), nil)
	}
}

func (c *Codec) elem(w *BW, rt *RT, x *Val, env *Env, nd *node) {
	if rt.K == "comp" {
		x.P = c.args(rt, env)
		c.comp(w, rt.In, x, nd)
		return
	}
	if nd == nil || !rt.Packable() {
		if nd != nil && c.mode == 1 {
			return
		}
		c.leaf(w, rt, x, env)
		return
	}
	if c.mode == 1 {
		nd.delta().init(x.N, c.leafSize(rt, x, env))
		return
	}
	nd.delta().write(w, x.N, func() { c.leaf(w, rt, x, env) })
	if nd.ctx.packed {
		c.Deltas++
	}
}

// Decode decodes a root object; used is the number of bits consumed.
func (c *Codec) Decode(in *Inst, buf []byte, nbits int, base int) (v *Val, used int, err error) {
	r := &BR{Buf: buf, Lim: nbits, Base: base, Lenient: c.Lenient}
	defer func() {
		used = r.N
		c.Wrapped = r.Wrapped
		if x := recover(); x != nil {
			switch e := x.(type) {
			case decErr:
				err = e.err
			case NotDefined:
				err = fmt.Errorf("%w: %s", ErrUndef, e.Why)
			default:
				panic(x)
			}
		}
	}()
	v = c.dcomp(r, in, nil, nil)
	return v, r.N, nil
}

func (c *Codec) dcomp(r *BR, in *Inst, p []*EV, nd *node) *Val {
	v := &Val{K: 'o', P: p, O: make([]*Val, len(in.D.Fields))}
	env := &Env{W: c.W, In: in, V: v}
	switch in.D.Kind {
	case "struct":
		for i := range in.D.Fields {
			c.dfield(r, in, i, v, env, nd)
		}
	case "union":
		plain := func() *big.Int { return c.dvar(r, "varsize") }
		var n *big.Int
		if nd != nil {
			lo, hi := VarRange("varsize")
			n = nd.tagCtx().read(r, lo, hi, plain)
		} else {
			n = plain()
		}
		if n.Cmp(big.NewInt(int64(len(in.D.Fields)))) >= 0 {
			fail(ErrBranch)
		}
		v.Tag = int(n.Int64())
		c.dfield(r, in, v.Tag, v, env, nd)
	case "choice":
		f, ok := c.W.Branch(in, v)
		if !ok {
			fail(ErrBranch)
		}
		v.Tag = f
		if f >= 0 {
			c.dfield(r, in, f, v, env, nd)
		}
	}
	return v
}

func (c *Codec) dvar(r *BR, kind string) *big.Int {
	n := VarDecode(kind, func() byte { return byte(r.bits(8)) })
	lo, hi := VarRange(kind)
	if n.Cmp(lo) < 0 || n.Cmp(hi) > 0 {
		fail(ErrRange)
	}
	return n
}

func (c *Codec) dfield(r *BR, in *Inst, i int, v *Val, env *Env, nd *node) {
	f := in.D.Fields[i]
	rt := c.W.F(in, i)
	if f.If != nil && !c.W.Eval(env, f.If).B {
		return
	}
	if f.Optional && !r.bit() {
		return
	}
	if f.Align > 0 {
		r.align(f.Align)
	}
	if f.Array == NoArray {
		var ch *node
		if nd != nil {
			ch = nd.child(i)
		}
		v.O[i] = c.delem(r, rt, env, ch)
		return
	}
	var n int64
	if f.Array == FixedArray {
		b := c.W.Eval(env, f.Len).N
		if !b.IsInt64() || b.Sign() < 0 {
			undef("array length")
		}
		n = b.Int64()
	} else {
		n = c.dvar(r, "varsize").Int64()
	}
	packed := (f.Packed || nd != nil) && (rt.Packable() || rt.K == "comp")
	a := &Val{K: 'a'}
	v.O[i] = a
	var an *node
	if packed {
		an = &node{}
	}
	for k := int64(0); k < n; k++ {
		if c.MaxElems > 0 && k >= int64(c.MaxElems) {
			fail(ErrBomb)
		}
		e := *env
		e.Index, e.HasIndex = int(k), true
		a.A = append(a.A, c.delem(r, rt, &e, an))
	}
}

func (c *Codec) delem(r *BR, rt *RT, env *Env, nd *node) *Val {
	if rt.K == "comp" {
		return c.dcomp(r, rt.In, c.args(rt, env), nd)
	}
	if nd == nil || !rt.Packable() {
		return c.dleaf(r, rt, env)
	}
	lo, hi := c.LeafRange(rt, env)
	return &Val{K: 'i', N: nd.delta().read(r, lo, hi, func() *big.Int { return c.dleaf(r, rt, env).N })}
}

func (c *Codec) dleaf(r *BR, rt *RT, env *Env) *Val {
	blob := func() []byte {
		n := int(c.dvar(r, "varsize").Int64())
		if r.N+8*n > r.Lim {
			fail(ErrEOF)
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.bits(8))
		}
		return b
	}
	switch rt.K {
	case "u":
		return &Val{K: 'i', N: new(big.Int).SetUint64(r.bits(c.width(rt, env)))}
	case "i":
		n := c.width(rt, env)
		u := r.bits(n)
		d := new(big.Int).SetUint64(u)
		if u>>(uint(n)-1)&1 == 1 {
			d.Sub(d, new(big.Int).Lsh(big.NewInt(1), uint(n)))
		}
		return &Val{K: 'i', N: d}
	case "vu", "vi":
		return &Val{K: 'i', N: c.dvar(r, rt.Var)}
	case "bool":
		return &Val{K: 'b', B: r.bit()}
	case "f16":
		return &Val{K: 'f', F: math.Float64bits(F16Val(uint16(r.bits(16))))}
	case "f32":
		return &Val{K: 'f', F: math.Float64bits(float64(math.Float32frombits(uint32(r.bits(32)))))}
	case "f64":
		return &Val{K: 'f', F: r.bits(64)}
	case "string":
		return &Val{K: 's', S: blob()}
	case "bytes":
		return &Val{K: 'y', S: blob()}
	case "extern":
		n := int(c.dvar(r, "varsize").Int64())
		if r.N+n > r.Lim {
			fail(ErrEOF)
		}
		b := make([]byte, (n+7)/8)
		for i := 0; i < n; i++ {
			if r.bit() {
				b[i/8] |= 0x80 >> (i % 8)
			}
		}
		return &Val{K: 'x', S: b, Bits: uint64(n)}
	case "enum", "mask":
		return c.dleaf(r, rt.Base, env)
	}
	panic("leaf " + rt.K)
}

// Args evaluates the arguments of a compound type.
func (c *Codec) Args(rt *RT, env *Env) []*EV { return c.args(rt, env) }

// NT is the native numeric type of a leaf; nil if there is none.
func (t *RT) NT() *NT {
	if t.K == "enum" || t.K == "mask" {
		return t.Base.nt()
	}
	return t.nt()
}
