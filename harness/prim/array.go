package prim

import (
	"bytes"
	"math"
	"math/big"
	"sync"

	"github.com/woven-planet/go-zserio/zstream"
	"github.com/woven-planet/go-zserio/ztype"

	"zsverif/zs"
)

// Arr describes an array of the runtime library, used directly; the elements
// are the operations of the case.
type Arr struct {
	Prop    string `json:"prop"` // what is checked
	K       string `json:"k"`
	N       int    `json:"n,omitempty"`
	Packed  bool   `json:"packed,omitempty"`
	Auto    bool   `json:"auto,omitempty"`
	Offsets bool   `json:"offsets,omitempty"` // elements are aligned
	Clone   bool   `json:"clone,omitempty"`
	Pos     int    `json:"pos,omitempty"` // bit position of the array
}

// packable: these are delta packed.
func packable(k string) bool {
	switch k {
	case "int", "uint", "sbits", "ubits":
		return true
	}
	return varKinds[k] != 0
}

func elemBits(o *Op, pos int) (Bits, bool) {
	if o.K == "f16" {
		var b Bits
		b.AddUint(uint64(zs.F16Bits(getF32(o))), 16)
		return b, true
	}
	return kindOf(o).enc(o, pos)
}

// model is the array as bits after Pos bits, and where its elements start.
func (c *Case) model() (b Bits, starts []int, ok bool) {
	a := c.Arr
	w := &zs.BW{}
	w.Bits(0, a.Pos)
	if a.Auto {
		for _, x := range lenBits(uint64(len(c.Ops))) {
			w.Bit(x == 1)
		}
	}
	var n []*big.Int
	var plain []func(w *zs.BW)
	for i := range c.Ops {
		x, ok := elemBits(&c.Ops[i], 0)
		if !ok {
			return nil, nil, false
		}
		n = append(n, c.Ops[i].big())
		plain = append(plain, func(w *zs.BW) {
			for _, b := range x {
				w.Bit(b == 1)
			}
		})
	}
	before := func() {
		if a.Offsets {
			w.Align(8)
		}
		starts = append(starts, w.N)
	}
	if a.Packed && packable(a.K) {
		zs.PackInts(w, n, plain, before)
	} else {
		for _, f := range plain {
			before()
			f(w)
		}
	}
	return Unpack(w.Buf)[:w.N], starts, true
}

func runArray[T any, Y ztype.IArrayTraits[T]](c *Case, y Y, get func(o *Op) T, show func(T, error) (string, error)) *Bad {
	a := c.Arr
	elems := make([]T, 0, len(c.Ops))
	var want []string
	for i := range c.Ops {
		elems = append(elems, get(&c.Ops[i]))
		s, _ := show(get(&c.Ops[i]), nil)
		want = append(want, s)
	}
	model, starts, ok := c.model()
	same := func(got []T) *Bad {
		if len(got) != len(want) {
			return bad("value", "read %d elements, want %d", len(got), len(want))
		}
		for i := range got {
			if s, _ := show(got[i], nil); s != want[i] && c.Ops[i].K != "extern" {
				return bad("value", "element %d is %s, want %s", i, s, want[i])
			}
		}
		return nil
	}
	open := func(data []byte) *zstream.BitReader {
		r := zstream.NewReader(source(c.Src, data))
		for n := a.Pos; n > 0; n -= min(n, 64) {
			if _, err := r.ReadBits(uint8(min(n, 64))); err != nil {
				panic(err)
			}
		}
		return r
	}
	size := len(c.Ops)
	if a.Auto {
		size = 0
	}
	var opts []ztype.ArrayOption[T, Y]
	var seen []int
	var index []int
	if a.Offsets {
		opts = append(opts, ztype.WithSetOffsetMethod[T, Y](func(int, int64) {}),
			ztype.WithCheckOffsetMethod[T, Y](func(i int, pos int64) { index, seen = append(index, i), append(seen, int(pos)) }))
	}
	if !ok {
		// an element that can not be encoded
		arr := &ztype.Array[T, Y]{ArrayTraits: y, RawArray: elems, FixedSize: size, IsAuto: a.Auto, IsPacked: a.Packed}
		w := zstream.NewWriter(&bytes.Buffer{})
		if arr.MarshalZserio(w) == nil && w.Close() == nil {
			return bad("accepted", "the array is written without an error")
		}
		return nil
	}
	data := model.Pack()
	var arr *ztype.Array[T, Y]
	read := func() *Bad {
		index, seen = nil, nil
		r := open(data)
		x, err := ztype.ArrayFromReader(r, y, size, a.Packed, a.Auto, opts...)
		if err != nil {
			return bad("read", "%v", err)
		}
		if b := same(x.RawArray); b != nil {
			return b
		}
		if n, err := r.Align(1); err != nil || n != int64(len(model)) {
			return bad("position", "after reading: position %d (%v), want %d", n, err, len(model))
		}
		if a.Offsets {
			for i := range starts {
				if i >= len(seen) || seen[i] != starts[i] || index[i] != i {
					return bad("offset", "elements %v are at %v, want %v", index, seen, starts)
				}
			}
		}
		arr = x
		return nil
	}
	if a.Offsets {
		if b := read(); b != nil {
			if a.Prop == "C04" {
				return nil // shown by other properties
			}
			return b
		}
		arr.RawArray = elems
	} else {
		arr = &ztype.Array[T, Y]{ArrayTraits: y, RawArray: elems, FixedSize: size, IsAuto: a.Auto, IsPacked: a.Packed}
	}
	if a.Clone {
		x, ok := arr.Clone().(*ztype.Array[T, Y])
		if !ok {
			return bad("clone", "Clone makes a %T", arr.Clone())
		}
		arr = x
	}
	var buf bytes.Buffer
	w := zstream.NewWriter(&buf)
	for n := a.Pos; n > 0; n -= min(n, 64) {
		if err := w.WriteBits(0, uint8(min(n, 64))); err != nil {
			return bad("refused", "%v", err)
		}
	}
	sizeOf := arr.ZserioBitSize
	if a.Packed {
		sizeOf = arr.ZserioBitSizePacked
	}
	var before, after int
	var berr, aerr error
	before, berr = sizeOf(a.Pos)
	if err := arr.MarshalZserio(w); err != nil {
		if a.Prop == "C04" {
			return nil
		}
		return bad("refused", "MarshalZserio: %v", err)
	}
	written := int(w.BitPosition()) - a.Pos
	after, aerr = sizeOf(a.Pos)
	if err := w.Close(); err != nil {
		return bad("refused", "Close: %v", err)
	}
	if a.Prop == "C04" || a.Prop == "C17" {
		if berr != nil || aerr != nil || before != written || after != written {
			return bad("size", "%d bits are written, the reported size is %d (%v), and %d (%v) after writing", written, before, berr, after, aerr)
		}
	}
	if a.Prop == "C04" {
		return nil
	}
	if got := Unpack(buf.Bytes())[:a.Pos+written]; !bytes.Equal(got, model) {
		return bad("bits", "written %x (%d bits)\nwant    %x (%d bits)", buf.Bytes(), len(got), data, len(model))
	}
	if b := same(arr.RawArray); b != nil {
		return b
	}
	if b := read(); b != nil {
		return b
	}
	// cut
	if keep := len(data) - 1 - c.Cut; keep*8 >= a.Pos && keep >= 0 && keep*8 < len(model) {
		r := open(data[:keep])
		if x, err := ztype.ArrayFromReader(r, y, size, a.Packed, a.Auto, opts...); err == nil {
			return bad("overread", "%d bytes instead of %d are read as %d elements without an error", keep, len(data), len(x.RawArray))
		}
	}
	return nil
}

// ArrayCase makes a case about a whole array.
func (g *Gen) ArrayCase() *Case {
	r := g.R
	a := &Arr{Prop: g.Prop, Auto: r.P(.5), Packed: r.P(.5), Clone: r.P(.2)}
	if g.Prop == "C02" {
		a.Packed = false
	}
	if g.Prop == "C03" {
		a.Packed = true
	}
	if r.P(.6) {
		a.Pos = r.N(70)
	}
	a.Offsets = r.P(.15)
	c := &Case{Mode: "array", Arr: a, Src: r.N(Sources)}
	if r.P(.3) {
		c.Cut = r.N(8)
	}
	n := r.N(8)
	switch {
	case r.P(.2):
		n = r.N(40)
	case r.P(.02):
		n = r.In(120, 300)
	}
	var first Op
	for {
		if r.P(.5) {
			first = g.varOp()
		} else {
			first = g.fixedOp()
		}
		first.T = true
		if g.Prop == "C03" && !packable(first.K) {
			continue
		}
		if first.K == "sbits" || first.K == "ubits" {
			if first.N > 64 {
				continue
			}
		}
		break
	}
	a.K, a.N = first.K, first.N
	if first.K == "bool" {
		a.N = 0
	}
	var lo, hi, prev *big.Int
	if varKinds[a.K] != 0 {
		lo, hi = zs.VarRange(a.K)
	} else if packable(a.K) {
		lo, hi = zs.Range(a.K == "int" || a.K == "sbits", a.N)
	}
	style := r.N(4)
	step := new(big.Int).Lsh(big.NewInt(1), uint(r.N(63)))
	for i := 0; i < n; i++ {
		o := Op{K: a.K, N: a.N, T: true}
		switch {
		case lo != nil:
			x := r.BigIn(lo, hi)
			if prev != nil && style == 1 { // near the element before
				x = new(big.Int).Add(prev, r.BigIn(new(big.Int).Neg(step), step))
			} else if prev != nil && style == 2 {
				x = prev
			}
			if x.Cmp(lo) < 0 || x.Cmp(hi) > 0 {
				x = r.BigIn(lo, hi)
			}
			prev = x
			o.V = x.String()
		case a.K == "bool":
			o.N = r.N(2)
		default:
			for { // of the same type
				o = g.fixedOp()
				if o.K == a.K {
					break
				}
			}
			o.T = true
			switch a.K {
			case "f16":
				h := uint16(r.U64())
				if h&0x7c00 == 0x7c00 {
					h &^= 0x400
				}
				f := float32(halfValue(h))
				o.F = uint64(math.Float32bits(f))
			case "bytes":
				o.U = uint64(len(o.B))
			case "extern":
				o.U = min(o.U, 8*uint64(len(o.B)))
			}
			if len(o.B) > 300 {
				o.B = o.B[:300]
				o.U = min(o.U, uint64(len(o.B)))
			}
		}
		c.Ops = append(c.Ops, o)
	}
	if g.Prop == "C06" && lo != nil && n > 0 {
		glo, ghi := goRange(a)
		i := r.N(n)
		for t := 0; t < 50; t++ {
			x := r.BigIn(glo, ghi)
			if r.P(.5) {
				x = new(big.Int).Add(zs.Pick(r, []*big.Int{lo, hi}), big.NewInt(int64(r.In(-2, 2))))
			}
			if x.Cmp(glo) >= 0 && x.Cmp(ghi) <= 0 && (x.Cmp(lo) < 0 || x.Cmp(hi) > 0) {
				c.Ops[i].V = x.String()
				break
			}
		}
	}
	return c
}

// goRange is the range of the Go type of the elements.
func goRange(a *Arr) (lo, hi *big.Int) {
	if varKinds[a.K] != 0 {
		return GoRange(a.K)
	}
	w := 64
	for _, n := range []int{32, 16, 8} {
		if a.N <= n {
			w = n
		}
	}
	return zs.Range(a.K == "int" || a.K == "sbits", w)
}

// Together runs cases on many goroutines at once. The traits are shared by all.
func Together(cases []*Case, goroutines int) *Bad {
	out := make([]*Bad, goroutines)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := range out {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := range cases {
				x := cases[(i+g)%len(cases)]
				if b := x.Run(); b != nil {
					out[g] = bad(b.Kind, "%s\n%s", b.Msg, x.Describe())
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, b := range out {
		if b != nil {
			return b
		}
	}
	return nil
}
