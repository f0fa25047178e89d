package zs

import (
	"fmt"
	"math"
	"math/big"
)

// VG generates values.
type VG struct {
	C *Codec
	R *Rng
	// Big allows longer arrays and strings now and then.
	Big bool
	// NoNaN leaves NaN out.
	NoNaN bool

	// Moderate draws most numbers of an object from a common, moderate range,
	// so that arithmetic on them is defined more often.
	Moderate bool

	budget int
	mag    int
	// Counts of what was generated.
	Stat map[string]int
	// Rejected counts retries.
	Rejected int
}

func (g *VG) count(k string) {
	if g.Stat != nil {
		g.Stat[k]++
	}
}

// Root generates a value of a root type; nil when none was found.
func (g *VG) Root(in *Inst) *Val {
	for try := 0; try < 60; try++ {
		v, err := g.try(in)
		if err == nil {
			if g.C.Fill(in, v) == nil {
				return v
			}
		}
		g.Rejected++
	}
	return nil
}

// Fill recomputes parameters by encoding; an error means v is not valid.
func (c *Codec) Fill(in *Inst, v *Val) error {
	_, err := c.Encode(in, v, 0)
	return err
}

func (g *VG) try(in *Inst) (v *Val, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case NotDefined:
				err = fmt.Errorf("undefined: %s", e.Why)
			case EncErr:
				err = e
			default:
				panic(r)
			}
		}
	}()
	g.budget = 300
	g.mag = 0
	if g.Moderate {
		g.mag = g.R.W(3, 4, 3)
	}
	return g.comp(in, nil, 0), nil
}

func (g *VG) comp(in *Inst, p []*EV, depth int) *Val {
	v := &Val{K: 'o', P: p, O: make([]*Val, len(in.D.Fields))}
	env := &Env{W: g.C.W, In: in, V: v}
	if depth > 40 {
		undef("too deep")
	}
	switch in.D.Kind {
	case "struct":
		for i := range in.D.Fields {
			g.field(in, i, v, env, depth)
		}
	case "union":
		v.Tag = g.R.N(len(in.D.Fields))
		if depth > 4 || g.budget < 0 {
			for i := range in.D.Fields {
				if g.C.W.F(in, i).K != "comp" {
					v.Tag = i
					break
				}
			}
		}
		g.field(in, v.Tag, v, env, depth)
		g.count("union")
	case "choice":
		f, ok := g.C.W.Branch(in, v)
		if !ok {
			undef("no case")
		}
		v.Tag = f
		if f >= 0 {
			g.field(in, f, v, env, depth)
		} else {
			g.count("emptycase")
		}
		g.count("choice")
	default:
		panic("compound " + in.D.Kind)
	}
	return v
}

func (g *VG) field(in *Inst, i int, v *Val, env *Env, depth int) {
	f := in.D.Fields[i]
	rt := g.C.W.F(in, i)
	if f.If != nil && !g.C.W.Eval(env, f.If).B {
		g.count("if-false")
		return
	}
	if f.If != nil {
		g.count("if-true")
	}
	deep := rt.K == "comp" && (depth > 4 || g.budget < 0)
	if f.Optional && (deep || g.R.P(.4)) {
		g.count("absent")
		return
	}
	if f.Array == NoArray {
		v.O[i] = g.elem(rt, f, env, depth)
		return
	}
	a := &Val{K: 'a'}
	n := 0
	if f.Array == FixedArray {
		b := g.C.W.Eval(env, f.Len).N
		if !b.IsInt64() || b.Sign() < 0 || b.Int64() > 300 {
			undef("array length")
		}
		n = int(b.Int64())
	} else {
		switch g.R.W(2, 3, 10, 3, 1) {
		case 0:
		case 1:
			n = 1
		case 2:
			n = g.R.In(2, 5)
		case 3:
			n = g.R.In(4, 12)
		case 4:
			n = g.R.In(8, 30)
			if g.Big && rt.K != "comp" {
				n = g.R.In(100, 150)
			}
		}
		if g.Moderate && n < 2 && g.R.P(.6) {
			n = g.R.In(2, 4)
		}
		if f.MaxLen > 0 && n > f.MaxLen {
			n = g.R.N(f.MaxLen + 1)
		}
		if deep || g.budget < 0 {
			n = 0
		}
		if rt.K == "comp" && n > 5 && depth > 1 {
			n = g.R.N(4)
		}
	}
	var seq []*big.Int
	if rt.IntLike() && f.Lo == nil && n > 0 && g.R.P(.75) {
		seq = g.sequence(rt, env, n)
	}
	for k := 0; k < n; k++ {
		if seq != nil {
			g.budget--
			a.A = append(a.A, &Val{K: 'i', N: seq[k]})
			continue
		}
		e := *env
		e.Index, e.HasIndex = k, true
		a.A = append(a.A, g.elem(rt, f, &e, depth))
	}
	v.O[i] = a
}

// sequence makes array contents that exercise delta packing.
func (g *VG) sequence(rt *RT, env *Env, n int) []*big.Int {
	if rt.K == "enum" || rt.K == "mask" {
		return nil
	}
	lo, hi := g.C.LeafRange(rt, env)
	out := make([]*big.Int, n)
	clamp := func(x *big.Int) *big.Int {
		if x.Cmp(lo) < 0 {
			return new(big.Int).Set(lo)
		}
		if x.Cmp(hi) > 0 {
			return new(big.Int).Set(hi)
		}
		return x
	}
	if g.mag > 0 {
		for i := range out {
			out[i] = g.number(lo, hi)
		}
		return out
	}
	base := g.R.BigIn(lo, hi)
	switch g.R.W(2, 2, 4, 2, 2) {
	case 0: // constant
		for i := range out {
			out[i] = base
		}
	case 1: // arithmetic progression
		step := big.NewInt(int64(g.R.In(-9, 9)))
		x := base
		for i := range out {
			out[i] = x
			x = clamp(new(big.Int).Add(x, step))
		}
	case 2: // jitter whose width varies
		w := uint(g.R.N(9))
		if g.R.P(.3) {
			w = uint(g.R.N(62))
		}
		x := base
		for i := range out {
			out[i] = x
			d := new(big.Int).SetUint64(g.R.U64() & (1<<w - 1))
			if g.R.P(.5) {
				d.Neg(d)
			}
			x = clamp(new(big.Int).Add(x, d))
		}
	case 3: // extremes
		e := []*big.Int{lo, hi, clamp(big.NewInt(0)), clamp(big.NewInt(-1)), clamp(big.NewInt(1))}
		for i := range out {
			out[i] = Pick(g.R, e)
		}
	case 4: // around zero, both signs
		for i := range out {
			out[i] = clamp(big.NewInt(int64(g.R.In(-4, 4))))
		}
	}
	return out
}

// number draws an integer according to the magnitude of the object.
func (g *VG) number(lo, hi *big.Int) *big.Int {
	var n *big.Int
	switch {
	case g.mag == 0 || g.R.P(.05):
		return g.R.BigIn(lo, hi)
	case g.mag == 1:
		n = big.NewInt(int64(g.R.N(100)))
		if g.R.P(.5) {
			n = big.NewInt(int64(g.R.N(9)))
		}
	default:
		// Around half the width of the type.
		w := hi.BitLen()
		b := w/2 + g.R.In(-2, 4)
		if b < 1 {
			b = 1
		}
		n = new(big.Int).SetUint64(g.R.U64() >> 1)
		n.And(n, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(b)), big.NewInt(1)))
	}
	if lo.Sign() < 0 && g.R.P(.25) {
		n.Neg(n)
	}
	if n.Cmp(lo) < 0 || n.Cmp(hi) > 0 {
		return g.R.BigIn(lo, hi)
	}
	return n
}

func (g *VG) elem(rt *RT, f *Field, env *Env, depth int) *Val {
	if rt.K == "comp" {
		return g.comp(rt.In, g.C.args(rt, env), depth+1)
	}
	return g.leaf(rt, f, env)
}

func (g *VG) leaf(rt *RT, f *Field, env *Env) *Val {
	g.budget--
	switch rt.K {
	case "u", "i", "vu", "vi":
		lo, hi := g.C.LeafRange(rt, env)
		if f != nil && f.Lo != nil {
			l, h := big.NewInt(*f.Lo), big.NewInt(*f.Hi)
			if l.Cmp(lo) < 0 {
				l = lo
			}
			if h.Cmp(hi) > 0 {
				h = hi
			}
			d := new(big.Int).Sub(h, l)
			return &Val{K: 'i', N: new(big.Int).Add(l, big.NewInt(int64(g.R.N(int(d.Int64())+1))))}
		}
		return &Val{K: 'i', N: g.number(lo, hi)}
	case "enum":
		return &Val{K: 'i', N: Pick(g.R, rt.Items)}
	case "mask":
		n := new(big.Int)
		for _, it := range rt.Items {
			if g.R.P(.5) {
				n.Or(n, it)
			}
		}
		return &Val{K: 'i', N: n}
	case "bool":
		return &Val{K: 'b', B: g.R.P(.5)}
	case "f16":
		b := uint16(g.R.U64())
		if g.R.P(.3) {
			b = []uint16{0, 0x8000, 1, 0x3ff, 0x400, 0x7bff, 0x7c00, 0xfc00, 0x3c00, 0x3c01}[g.R.N(10)]
		}
		if b&0x7c00 == 0x7c00 && b&0x3ff != 0 {
			b = 0x7e00
			if g.NoNaN {
				b = 0x3c00
			}
		}
		return &Val{K: 'f', F: math.Float64bits(F16Val(b))}
	case "f32":
		if g.mag > 0 {
			return &Val{K: 'f', F: math.Float64bits(float64(g.R.In(-40, 400)) / 4)}
		}
		x := float64(math.Float32frombits(uint32(g.R.U64())))
		if g.R.P(.4) {
			x = []float64{0, math.Copysign(0, -1), 1, -1.5, math.Inf(1), math.Inf(-1), math.MaxFloat32, math.SmallestNonzeroFloat32, math.NaN(), .1}[g.R.N(10)]
			x = float64(float32(x))
		}
		if math.IsNaN(x) {
			x = math.NaN()
			if g.NoNaN {
				x = 2
			}
		}
		return &Val{K: 'f', F: math.Float64bits(x)}
	case "f64":
		if g.mag > 0 {
			return &Val{K: 'f', F: math.Float64bits(float64(g.R.In(-400, 4000)) / 16)}
		}
		x := math.Float64frombits(g.R.U64())
		if g.R.P(.4) {
			x = []float64{0, math.Copysign(0, -1), 1, -1.5, math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64, math.NaN(), .1}[g.R.N(10)]
		}
		if math.IsNaN(x) {
			x = math.NaN()
			if g.NoNaN {
				x = 2
			}
		}
		return &Val{K: 'f', F: math.Float64bits(x)}
	case "string":
		return &Val{K: 's', S: []byte(g.str())}
	case "bytes":
		return &Val{K: 'y', S: g.blob(g.length())}
	case "extern":
		n := g.length()
		bits := 8 * n
		if g.R.P(.6) {
			bits = g.R.In(0, 8*n+7)
		}
		b := g.blob((bits + 7) / 8)
		if bits%8 != 0 && g.R.P(.7) {
			b[len(b)-1] &= byte(0xff) << (8 - bits%8)
		}
		return &Val{K: 'x', S: b, Bits: uint64(bits)}
	}
	panic("leaf " + rt.K)
}

func (g *VG) length() int {
	switch g.R.W(3, 8, 3, 1) {
	case 0:
		return 0
	case 1:
		return g.R.In(1, 6)
	case 2:
		return g.R.In(5, 20)
	}
	if g.Big {
		return g.R.In(120, 135)
	}
	return g.R.In(14, 18)
}

func (g *VG) blob(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.R.U64())
	}
	return b
}

func (g *VG) str() string {
	n := g.length()
	al := []rune("abcXYZ019 _-\"\\\x00\n\u00e9\u4e2d\U0001f600")
	s := make([]rune, n)
	for i := range s {
		s[i] = Pick(g.R, al)
	}
	return string(s)
}

// Leaves lists the addressable leaves of a value: for value shrinking and for
// planting invalid values.
type Leaf struct {
	Path string
	RT   *RT
	F    *Field
	Env  *Env
	V    *Val
	Set  func(*Val)
}

// Visit calls fn for each leaf and array below a compound.
func (w *World) Visit(in *Inst, v *Val, path string, fn func(l Leaf)) {
	env := &Env{W: w, In: in, V: v}
	for i, x := range v.O {
		if x == nil {
			continue
		}
		i := i
		f := in.D.Fields[i]
		rt := w.F(in, i)
		p := path + "." + f.Name
		if f.Array == NoArray {
			if rt.K == "comp" {
				w.Visit(rt.In, x, p, fn)
			} else {
				fn(Leaf{p, rt, f, env, x, func(y *Val) { v.O[i] = y }})
			}
			if f.Optional {
				fn(Leaf{p + "?", rt, f, env, x, func(y *Val) { v.O[i] = y }})
			}
			continue
		}
		fn(Leaf{p + "[]", rt, f, env, x, func(y *Val) { v.O[i] = y }})
		for k, y := range x.A {
			q := fmt.Sprintf("%s[%d]", p, k)
			if rt.K == "comp" {
				w.Visit(rt.In, y, q, fn)
				continue
			}
			k := k
			e := *env
			e.Index, e.HasIndex = k, true
			fn(Leaf{q, rt, f, &e, y, func(z *Val) { x.A[k] = z }})
		}
	}
}

// Shrink simplifies v while bad(v) holds. v is not modified.
func (c *Codec) Shrink(in *Inst, v *Val, bad func(*Val) bool, maxSteps int) *Val {
	steps := 0
	for progress := true; progress && steps < maxSteps; {
		progress = false
		n := 0
		c.W.Visit(in, v, "", func(Leaf) { n++ })
		for k := 0; k < n && steps < maxSteps; k++ {
			for alt := 0; alt < 4; alt++ {
				t := CloneVal(v)
				i, changed := 0, false
				c.W.Visit(in, t, "", func(l Leaf) {
					if i == k {
						changed = shrinkLeaf(l, alt)
					}
					i++
				})
				if !changed {
					continue
				}
				steps++
				if c.Fill(in, t) == nil && bad(t) {
					v = t
					progress = true
					break
				}
			}
			n = 0
			c.W.Visit(in, v, "", func(Leaf) { n++ })
		}
	}
	c.Fill(in, v)
	return v
}

func shrinkLeaf(l Leaf, alt int) bool {
	v := l.V
	if len(l.Path) > 0 && l.Path[len(l.Path)-1] == '?' {
		if alt == 0 {
			l.Set(nil)
			return true
		}
		return false
	}
	switch v.K {
	case 'a':
		n := len(v.A)
		switch {
		case l.F.Array != AutoArray || n == 0:
			return false
		case alt == 0:
			v.A = nil
		case alt == 1 && n > 1:
			v.A = v.A[:n/2]
		case alt == 2 && n > 1:
			v.A = v.A[:n-1]
		case alt == 3 && n > 1:
			v.A = v.A[1:]
		default:
			return false
		}
		return true
	case 'i':
		if l.RT.K == "enum" {
			return false
		}
		n := new(big.Int)
		switch alt {
		case 0:
		case 1:
			n.Quo(v.N, big.NewInt(2))
		case 2:
			n.Sub(v.N, big.NewInt(int64(v.N.Sign())))
		default:
			return false
		}
		if n.Cmp(v.N) == 0 || v.N.Sign() == 0 || l.F.Lo != nil && n.Cmp(big.NewInt(*l.F.Lo)) < 0 {
			return false
		}
		v.N = n
		return true
	case 'f':
		if alt > 0 || v.F == 0 {
			return false
		}
		v.F = 0
		return true
	case 'b':
		if alt > 0 || !v.B {
			return false
		}
		v.B = false
		return true
	case 's', 'y':
		n := len(v.S)
		if n == 0 || alt > 2 {
			return false
		}
		v.S = v.S[:[]int{0, n / 2, n - 1}[alt]]
		return true
	case 'x':
		if v.Bits == 0 || alt > 2 {
			return false
		}
		v.Bits = []uint64{0, v.Bits / 2, v.Bits - 1}[alt]
		v.S = v.S[:(v.Bits+7)/8]
		return true
	}
	return false
}
