package zs

import (
	"fmt"
	"math/big"
)

// Rich expressions: everything functions can compute. Results that are not
// defined (overflow, division by zero, absent fields, indices out of range)
// are left out when the function is called, so nothing has to be bounded.

// operand is a field or parameter that rich expressions use.
type operand struct {
	e  *Expr
	nt *NT // of integers and floats
}

// lit writes a number in one of the notations.
func (g *gen) lit(n int64) *Expr {
	if n < 0 || g.r.P(.7) {
		return Lit(n)
	}
	return &Expr{Op: "int", Text: g.digits(n)}
}

func (g *gen) digits(n int64) string {
	switch g.r.N(5) {
	case 0:
		return fmt.Sprintf("0x%x", n)
	case 1:
		return fmt.Sprintf("0X%X", n)
	case 2:
		return fmt.Sprintf("0%o", n)
	case 3:
		return fmt.Sprintf("%bb", n)
	}
	return fmt.Sprint(n)
}

// wideLit is a number that may be negative or large.
func (g *gen) wideLit() *Expr {
	n := int64(g.r.U64() >> g.r.In(20, 62))
	if g.r.P(.5) {
		n = int64(1)<<Pick(g.r, []int{7, 8, 15, 16, 31, 32, 40}) + int64(g.r.N(4)) - 2
	}
	if g.r.P(.4) {
		return &Expr{Op: "neg", Args: []*Expr{g.lit(n)}}
	}
	return g.lit(n)
}

// use makes a field or parameter available to rich expressions.
func (g *gen) use(sc *scope, e *Expr, rt *RT, array, guaranteed bool) {
	switch rt.K {
	case "u", "i", "vu", "vi":
		if array {
			e = &Expr{Op: "idx", Args: []*Expr{e, g.index(sc)}}
		}
		sc.ai = append(sc.ai, operand{e, rt.nt()})
	case "f16", "f32", "f64":
		if array {
			e = &Expr{Op: "idx", Args: []*Expr{e, g.index(sc)}}
		}
		sc.af = append(sc.af, operand{e, rt.nt()})
	case "string":
		if array {
			e = &Expr{Op: "idx", Args: []*Expr{e, g.index(sc)}}
		}
		sc.as = append(sc.as, e)
	case "comp":
		if array {
			e = &Expr{Op: "idx", Args: []*Expr{e, g.index(sc)}}
		}
		if rt.In.D.Kind != "struct" {
			return
		}
		if !array {
			sc.ac = append(sc.ac, e)
			sc.acT = append(sc.acT, &Type{K: "ref", Ref: rt.In.D.Ref(), Targs: rt.In.Targs})
		}
		for i, f := range rt.In.D.Fields {
			ft := g.w.F(rt.In, i)
			if f.Array != NoArray {
				if ft.K != "comp" && g.r.P(.3) {
					g.use(sc, &Expr{Op: "dot", Text: f.Name, Args: []*Expr{e}}, ft, true, false)
				}
				continue
			}
			if ft.K != "comp" {
				g.use(sc, &Expr{Op: "dot", Text: f.Name, Args: []*Expr{e}}, ft, false, false)
			}
		}
		for _, f := range rt.In.D.Funcs {
			if e.Op == "call" { // Go cannot call methods of results
				break
			}
			if ft := g.w.Resolve(rt.In, f.Ret); ft.K != "comp" {
				g.use(sc, &Expr{Op: "call", Text: f.Name, Args: []*Expr{e}}, ft, false, false)
			}
		}
	case "bool":
		if array {
			e = &Expr{Op: "idx", Args: []*Expr{e, g.index(sc)}}
		}
		sc.ab = append(sc.ab, e)
	case "enum", "mask":
		if array {
			e = &Expr{Op: "idx", Args: []*Expr{e, g.index(sc)}}
		}
		sc.an = append(sc.an, e)
		sc.anD = append(sc.anD, rt.D)
	}
}

// named is an enum or bitmask expression of type d.
func (g *gen) named(sc *scope, d *Decl, depth int) *Expr {
	var l []*Expr
	for i, e := range sc.an {
		if sc.anD[i] == d {
			l = append(l, e)
		}
	}
	item := &Expr{Op: "item", Ref: d.Ref(), Text: Pick(g.r, d.Items).Name}
	leaf := item
	if len(l) > 0 && g.r.P(.7) {
		leaf = Pick(g.r, l)
	}
	if depth >= 3 {
		return leaf
	}
	switch g.r.W(5, 2, 1, 3) {
	case 1:
		return &Expr{Op: "?:", Args: []*Expr{g.richBool(sc, depth+2), leaf, g.named(sc, d, depth+1)}}
	case 2:
		return &Expr{Op: "paren", Args: []*Expr{leaf}}
	case 3:
		if d.Kind == "bitmask" {
			return Bin(Pick(g.r, []string{"|", "&", "^"}), leaf, g.named(sc, d, depth+1))
		}
	}
	return leaf
}

// index is an index that is often within an array.
func (g *gen) index(sc *scope) *Expr {
	if len(sc.ints) > 0 && g.r.P(.4) {
		return Bin("%", Pick(g.r, sc.ints).e, Lit(int64(g.r.In(1, 4))))
	}
	return g.lit(int64(g.r.N(3)))
}

func constant(e *Expr) bool {
	switch e.Op {
	case "id", "dot", "call", "idx", "lengthof", "index":
		return false
	}
	for _, a := range e.Args {
		if !constant(a) {
			return false
		}
	}
	return true
}

func (g *gen) richLeaf(sc *scope) *Expr {
	for try := 0; try < 8; try++ {
		switch g.r.W(6, 8, 3, 2, 1, 1, 1) {
		case 0:
			if len(sc.ints) > 0 {
				return Pick(g.r, sc.ints).e
			}
		case 1:
			if len(sc.ai) > 0 {
				return Pick(g.r, sc.ai).e
			}
		case 2:
			if g.r.P(.15) {
				return g.wideLit()
			}
			return g.lit(int64(g.r.N(g.r.In(4, 100))))
		case 3:
			if len(g.consts) > 0 {
				return g.constRef(Pick(g.r, g.consts))
			}
		case 4:
			if len(sc.arrays) > 0 {
				return &Expr{Op: "lengthof", Args: []*Expr{Pick(g.r, sc.arrays)}}
			}
		case 5:
			if len(sc.an) > 0 {
				return &Expr{Op: "valueof", Args: []*Expr{g.named(sc, Pick(g.r, sc.anD), 1)}}
			}
		case 6:
			if len(sc.masks) > 0 {
				return &Expr{Op: "valueof", Args: []*Expr{Pick(g.r, sc.masks)}}
			}
		}
	}
	return g.lit(int64(g.r.N(8)))
}

// varying is a subexpression that is not constant, if there is any.
func (g *gen) varying(sc *scope, depth int) *Expr {
	for try := 0; try < 6; try++ {
		if e := g.richInt(sc, depth); !constant(e) {
			return e
		}
	}
	if len(sc.ints) > 0 {
		return Pick(g.r, sc.ints).e
	}
	if len(sc.ai) > 0 {
		return Pick(g.r, sc.ai).e
	}
	return nil
}

func (g *gen) richInt(sc *scope, depth int) *Expr {
	if depth >= 4 || g.r.P(.15*float64(depth)) {
		return g.richLeaf(sc)
	}
	if len(sc.ints) == 0 && len(sc.ai) == 0 {
		return g.richLeaf(sc)
	}
	a := g.varying(sc, depth+1)
	switch g.r.W(8, 5, 4, 2, 1, 3, 1, 1) {
	case 0: // one side may be constant
		op := Pick(g.r, []string{"+", "-", "*", "&", "|", "^", "+", "-"})
		b := g.richInt(sc, depth+1)
		if constant(b) {
			b = g.richLeaf(sc)
		}
		if g.r.P(.5) {
			a, b = b, a
		}
		return Bin(op, a, b)
	case 1:
		var b *Expr
		switch g.r.N(3) {
		case 0:
			b = g.lit(int64(g.r.In(1, 9)))
		case 1:
			b = Bin(Pick(g.r, []string{"*", "%", "+"}), g.varying(sc, depth+1), g.lit(int64(g.r.In(1, 9))))
		default:
			b = g.varying(sc, depth+1)
		}
		return Bin(Pick(g.r, []string{"/", "%"}), a, b)
	case 2:
		b := g.lit(int64(g.r.N(8)))
		if g.r.P(.4) && len(sc.ints) > 0 {
			b = Pick(g.r, sc.ints).e
		}
		return Bin(Pick(g.r, []string{"<<", ">>"}), a, b)
	case 3:
		return &Expr{Op: "?:", Args: []*Expr{g.richBool(sc, depth+1), a, g.richInt(sc, depth+1)}}
	case 4:
		return &Expr{Op: "numbits", Args: []*Expr{a}}
	case 5:
		return Bin(Pick(g.r, []string{"+", "-"}), a, Bin(Pick(g.r, []string{"+", "-", "*"}), g.varying(sc, depth+1), g.richLeaf(sc)))
	case 6:
		return &Expr{Op: Pick(g.r, []string{"neg", "~", "pos"}), Args: []*Expr{a}}
	}
	return &Expr{Op: "paren", Args: []*Expr{a}}
}

func (g *gen) richBool(sc *scope, depth int) *Expr {
	for try := 0; try < 8; try++ {
		switch g.r.W(9, 3, 3, 2, 2, 2, 1, 2, 1) {
		case 7:
			if len(sc.an) > 0 {
				d := Pick(g.r, sc.anD)
				a, b := g.named(sc, d, 1), g.named(sc, d, 1)
				if d.Kind == "bitmask" && g.r.P(.5) {
					return &Expr{Op: "isset", Args: []*Expr{a, b}}
				}
				return Bin(Pick(g.r, []string{"==", "!="}), a, b)
			}
		case 8:
			if depth < 4 {
				b := g.richBool(sc, depth+1)
				if g.r.P(.5) {
					return &Expr{Op: "paren", Args: []*Expr{b}}
				}
				return &Expr{Op: "?:", Args: []*Expr{g.richBool(sc, depth+1), b, g.richBool(sc, depth+1)}}
			}
		case 0:
			if len(sc.ints) > 0 || len(sc.ai) > 0 {
				a, b := g.varying(sc, depth+1), g.richInt(sc, depth+1)
				if constant(b) {
					b = g.richLeaf(sc)
				}
				return Bin(Pick(g.r, []string{"==", "!=", "<", "<=", ">", ">="}), a, b)
			}
		case 1:
			return g.cond(sc, depth)
		case 2:
			if depth < 4 {
				return Bin(Pick(g.r, []string{"&&", "||"}), g.richBool(sc, depth+1), g.richBool(sc, depth+1))
			}
		case 3:
			if depth < 4 {
				return &Expr{Op: "!", Args: []*Expr{g.richBool(sc, depth+1)}}
			}
		case 4:
			if len(sc.as) > 0 {
				return Bin(Pick(g.r, []string{"==", "!="}), Pick(g.r, sc.as), g.richString(sc, depth+1))
			}
		case 5:
			if len(sc.af) > 0 {
				return Bin(Pick(g.r, []string{"<", "<=", ">", ">="}), g.richFloat(sc, depth+1), g.richFloat(sc, depth+1))
			}
		case 6:
			if len(sc.ab) > 0 {
				return Bin(Pick(g.r, []string{"==", "!="}), Pick(g.r, sc.ab), Pick(g.r, sc.ab))
			}
		}
	}
	return g.cond(sc, depth)
}

func (g *gen) richFloat(sc *scope, depth int) *Expr {
	a := Pick(g.r, sc.af).e
	if depth >= 3 || g.r.P(.4) {
		return a
	}
	switch g.r.N(6) {
	case 2:
		return &Expr{Op: "?:", Args: []*Expr{g.richBool(sc, 3), a, g.richFloat(sc, depth+1)}}
	case 3:
		return &Expr{Op: "paren", Args: []*Expr{a}}
	case 0:
		return &Expr{Op: "neg", Args: []*Expr{a}}
	case 1:
		return Bin(Pick(g.r, []string{"+", "-", "*", "/"}), a, &Expr{Op: "float", Text: Pick(g.r, []string{"0.5", "2.0", "1.5", "4.0f", "0.25f", "1.0e1"})})
	}
	return Bin(Pick(g.r, []string{"+", "-", "*"}), a, g.richFloat(sc, depth+1))
}

func (g *gen) richString(sc *scope, depth int) *Expr {
	var a *Expr
	if g.r.P(.5) && len(sc.as) > 0 {
		a = Pick(g.r, sc.as)
	} else {
		a = &Expr{Op: "str", Text: Pick(g.r, []string{`""`, `"abc"`, `"x y"`, `"zserio"`, `"%d"`})}
	}
	if len(g.sconsts) > 0 && g.r.P(.2) {
		a = g.constRef(Pick(g.r, g.sconsts))
	}
	if depth < 3 && g.r.P(.4) {
		return Bin("+", a, g.richString(sc, depth+1))
	}
	if depth < 3 && g.r.P(.3) {
		return &Expr{Op: "?:", Args: []*Expr{g.richBool(sc, 3), a, g.richString(sc, depth+1)}}
	}
	if g.r.P(.1) {
		return &Expr{Op: "paren", Args: []*Expr{a}}
	}
	return a
}

// pair is one operator between two fields.
func (g *gen) pair(sc *scope) *Expr {
	a, b := Pick(g.r, sc.ai), Pick(g.r, sc.ai)
	for try := 0; try < 4 && a.nt != nil && b.nt != nil && a.nt.Name == b.nt.Name && a.nt.Dyn == b.nt.Dyn; try++ {
		b = Pick(g.r, sc.ai)
	}
	for try := 0; try < 6 && !(a.nt != nil && a.nt.Dyn); try++ { // the width of dynamic bit fields is not known
		if x := Pick(g.r, sc.ai); x.nt != nil && x.nt.Dyn {
			a = x
		}
	}
	e := Bin(Pick(g.r, []string{"+", "-", "*", "/", "%", "&", "|", "^", "+", "+", "|"}), a.e, b.e)
	switch g.r.N(8) {
	case 0:
		e = Bin(Pick(g.r, []string{"+", "-", "|"}), e, Pick(g.r, sc.ai).e)
	case 1:
		e = &Expr{Op: "?:", Args: []*Expr{g.richBool(sc, 3), a.e, b.e}}
	case 2:
		e = Bin(Pick(g.r, []string{">>", "<<"}), e, g.lit(int64(g.r.N(12))))
	}
	return e
}

func (g *gen) isZero(e *Expr) bool {
	v, err := g.w.TryEval(&Env{W: g.w}, e)
	return err != nil || v.N.Sign() == 0
}

// richFunc adds a function that nothing else calls, except richly.
func (g *gen) richFunc(sc *scope) {
	d := sc.d
	fn := &Func{Name: "rich" + fmt.Sprint(len(d.Funcs))}
	var rt *RT
	switch g.r.W(8, 5, 1, 1, 2, 1) {
	case 0:
		fn.Ret = &Type{K: Pick(g.r, []string{"int64", "int64", "uint64", "int32", "uint32", "uint16", "varsize", "varint", "varuint32", "int8"})}
		if g.r.P(.15) {
			fn.Ret = &Type{K: Pick(g.r, []string{"bit", "int"}), Bits: g.r.In(8, 64)}
		}
		fn.Body = g.richInt(sc, 0)
		if len(sc.ai) > 1 && g.r.P(.4) { // how two types mix
			fn.Ret = &Type{K: Pick(g.r, []string{"int64", "int64", "uint64"})}
			fn.Body = g.pair(sc)
		}
	case 1:
		fn.Ret = &Type{K: "bool"}
		fn.Body = g.richBool(sc, 0)
	case 2:
		if len(sc.as) == 0 {
			return
		}
		fn.Ret = &Type{K: "string"}
		fn.Body = g.richString(sc, 0)
	case 3:
		if len(sc.af) == 0 {
			return
		}
		fn.Ret = &Type{K: "float64"}
		fn.Body = g.richFloat(sc, 0)
	case 4:
		if len(sc.an) == 0 {
			return
		}
		d := Pick(g.r, sc.anD)
		fn.Ret = g.ref(d)
		fn.Body = g.named(sc, d, 0)
	case 5:
		if len(sc.ac) == 0 {
			return
		}
		k := g.r.N(len(sc.ac))
		fn.Ret = sc.acT[k]
		fn.Body = sc.ac[k]
	}
	rt = g.w.Resolve(nil, fn.Ret)
	d.Funcs = append(d.Funcs, fn)
	if rt.K != "comp" || g.r.P(.5) {
		g.use(sc, &Expr{Op: "call", Text: fn.Name}, rt, false, false)
	}
}

// constExpr is an integer expression over literals and constants.
func (g *gen) constExpr(depth int) *Expr {
	if depth >= 3 || g.r.P(.3) {
		switch g.r.W(8, 3, 1, 1) {
		case 0:
			if g.r.P(.2) {
				return g.lit(int64(g.r.U64() >> g.r.In(1, 63)))
			}
			return g.lit(int64(g.r.N(200)))
		case 1:
			if len(g.wconsts) > 0 {
				return g.constRef(Pick(g.r, g.wconsts))
			}
		case 2:
			if len(g.consts) > 0 {
				return g.constRef(Pick(g.r, g.consts))
			}
		case 3:
			if len(g.enums) > 0 {
				d := Pick(g.r, g.enums)
				return &Expr{Op: "valueof", Args: []*Expr{{Op: "item", Ref: d.Ref(), Text: Pick(g.r, d.Items).Name}}}
			}
		}
		return g.lit(int64(g.r.N(10)))
	}
	switch g.r.W(10, 2, 2, 1, 2) {
	case 0:
		return Bin(Pick(g.r, []string{"+", "-", "*", "/", "%", "&", "|", "^", "+", "-", "*"}), g.constExpr(depth+1), g.constExpr(depth+1))
	case 1:
		return Bin(Pick(g.r, []string{"<<", ">>"}), g.constExpr(depth+1), g.lit(int64(g.r.N(20))))
	case 2:
		return &Expr{Op: Pick(g.r, []string{"neg", "~", "pos"}), Args: []*Expr{g.constExpr(depth + 1)}}
	case 3:
		return &Expr{Op: "numbits", Args: []*Expr{g.constExpr(depth + 1)}}
	}
	return &Expr{Op: "paren", Args: []*Expr{g.constExpr(depth + 1)}}
}

// anyConst declares a constant of any type, which may be wide or negative.
func (g *gen) anyConst() {
	d := &Decl{Kind: "const", Name: g.typeName()}
	switch g.r.W(8, 2, 2, 2) {
	case 0:
		d.Value = g.constExpr(0)
		v, err := g.w.TryEval(&Env{W: g.w}, d.Value)
		if err != nil {
			return
		}
		var fit []*Type
		for _, k := range []string{"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "varint", "varint16", "varint32", "varint64", "varuint", "varuint16", "varuint32", "varuint64", "varsize"} {
			var lo, hi *big.Int
			if s, n, ok := fixedInt(k); ok {
				lo, hi = Range(s, n)
			} else {
				lo, hi = VarRange(k)
			}
			if v.N.Cmp(lo) >= 0 && v.N.Cmp(hi) <= 0 {
				fit = append(fit, &Type{K: k})
			}
		}
		n := g.r.In(1, 64)
		if lo, hi := Range(true, n); v.N.Cmp(lo) >= 0 && v.N.Cmp(hi) <= 0 {
			fit = append(fit, &Type{K: "int", Bits: n})
		}
		if lo, hi := Range(false, n); v.N.Cmp(lo) >= 0 && v.N.Cmp(hi) <= 0 {
			fit = append(fit, &Type{K: "bit", Bits: n})
		}
		if len(fit) == 0 {
			return
		}
		d.Type = Pick(g.r, fit)
		g.wconsts = append(g.wconsts, d)
	case 1:
		d.Type = &Type{K: Pick(g.r, []string{"float16", "float32", "float64"})}
		d.Value = &Expr{Op: "float", Text: Pick(g.r, []string{"0.5", "2.0", "1.5", "4.0f", "0.25f", "1.0e1", "1.25E-1", "0.0"})}
		if g.r.P(.3) {
			d.Value = &Expr{Op: "neg", Args: []*Expr{d.Value}}
		}
		if g.r.P(.2) && len(g.fconsts) > 0 {
			d.Value = g.constRef(Pick(g.r, g.fconsts))
		} else if d.Type.K != "float16" {
			g.fconsts = append(g.fconsts, d)
		}
	case 2:
		d.Type = &Type{K: "string"}
		d.Value = &Expr{Op: "str", Text: Pick(g.r, []string{`""`, `"abc"`, `"x y"`, `"zserio"`, `"%d"`, `"tab\tquote\""`, `"ünïcödé"`})}
		if g.r.P(.4) {
			b := &Expr{Op: "str", Text: `"suffix"`}
			if len(g.sconsts) > 0 {
				b = g.constRef(Pick(g.r, g.sconsts))
			}
			d.Value = Bin("+", d.Value, b)
		}
		g.sconsts = append(g.sconsts, d)
	case 3:
		d.Type = &Type{K: "bool"}
		switch g.r.N(5) {
		case 3, 4:
			num := func() *Expr {
				if len(g.fconsts) > 0 && g.r.P(.4) {
					return g.constRef(Pick(g.r, g.fconsts))
				}
				return &Expr{Op: "float", Text: Pick(g.r, []string{"0.5", "2.0", "1.5", "4.0f", "0.25f", "1.0e1", "1.25E-1", "0.0"})}
			}
			a, b := num(), num()
			if g.r.P(.35) {
				b = a
			}
			d.Value = Bin(Pick(g.r, []string{"<", "<=", ">", ">="}), a, b)
		case 0:
			d.Value = &Expr{Op: "bool", Text: Pick(g.r, []string{"true", "false"})}
		case 1:
			a, b := g.constExpr(1), g.constExpr(1)
			if g.r.P(.35) { // equal
				b = a
			}
			d.Value = Bin(Pick(g.r, []string{"==", "!=", "<", "<=", ">", ">="}), a, b)
		case 2:
			if len(g.bconsts) == 0 {
				return
			}
			d.Value = Bin(Pick(g.r, []string{"&&", "||"}), g.constRef(Pick(g.r, g.bconsts)), &Expr{Op: "!", Args: []*Expr{g.constRef(Pick(g.r, g.bconsts))}})
		}
		if _, err := g.w.TryEval(&Env{W: g.w}, d.Value); err != nil {
			return
		}
		g.bconsts = append(g.bconsts, d)
	}
	g.add(d)
}

// goBits is the width of the Go type of the operand, if it is at most 32.
func goBits(types []*Type, i int) int {
	if i >= len(types) {
		return 0
	}
	t := types[i]
	n := t.Bits
	switch t.K {
	case "int8", "uint8":
		n = 8
	case "int16", "uint16", "varint16", "varuint16":
		n = 16
	case "int32", "uint32", "varint32", "varuint32", "varsize":
		n = 32
	}
	for _, k := range []int{8, 16, 32} {
		if n > 0 && n <= k {
			return k
		}
	}
	return 0
}

// matrix declares a struct with fields of many numeric types and functions
// that apply operators to pairs of them.
func (g *gen) matrix() {
	d := &Decl{Kind: "struct", Name: g.typeName()}
	d.Pkg = g.pkg.Name
	n := names{}
	w := &Field{Name: g.fieldName(n), Type: &Type{K: "uint8"}, Lo: ip(1), Hi: ip(64)}
	d.Fields = append(d.Fields, w)
	id := func(f *Field) *Expr { return &Expr{Op: "id", Text: f.Name} }
	types := []*Type{{K: "dbit", Len: id(w)}, {K: "dint", Len: id(w)}, {K: "bit", Bits: g.r.In(1, 64)}, {K: "int", Bits: g.r.In(1, 64)},
		{K: "bit", Bits: g.r.In(30, 34)}}
	for _, k := range []string{"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "varint", "varint16", "varint32", "varint64", "varuint", "varuint16", "varuint32", "varuint64", "varsize"} {
		types = append(types, &Type{K: k})
	}
	Shuffle(g.r, types)
	types = append(types[:5:5], types[5], &Type{K: Pick(g.r, []string{"dbit", "dint", "dbit"}), Len: id(w)})
	if g.r.P(.5) {
		types = append(types, &Type{K: Pick(g.r, []string{"uint64", "varuint"})})
	}
	var ops []*Expr
	for _, t := range types {
		f := &Field{Name: g.fieldName(n), Type: t}
		e := id(f)
		if g.r.P(.15) {
			f.Array, e = AutoArray, &Expr{Op: "idx", Args: []*Expr{e, g.lit(int64(g.r.N(2)))}}
		}
		d.Fields = append(d.Fields, f)
		ops = append(ops, e)
	}
	switch g.r.N(4) {
	case 0:
		ops = append(ops, &Expr{Op: "numbits", Args: []*Expr{ops[g.r.N(len(types))]}})
	case 1:
		f := &Field{Name: g.fieldName(n), Type: &Type{K: "uint8"}, Array: AutoArray}
		d.Fields = append(d.Fields, f)
		ops = append(ops, &Expr{Op: "lengthof", Args: []*Expr{id(f)}})
	case 2:
		if len(g.enums) > 0 {
			f := &Field{Name: g.fieldName(n), Type: g.ref(Pick(g.r, g.enums))}
			d.Fields = append(d.Fields, f)
			ops = append(ops, &Expr{Op: "valueof", Args: []*Expr{id(f)}})
		}
	case 3:
		if len(g.consts) > 0 {
			ops = append(ops, g.constRef(Pick(g.r, g.consts)))
		}
	}
	fn := func(ret string, body *Expr) {
		d.Funcs = append(d.Funcs, &Func{Name: "on" + fmt.Sprint(len(d.Funcs)), Ret: &Type{K: ret}, Body: body})
	}
	for _, a := range ops {
		for _, b := range ops {
			if constant(a) && constant(b) {
				continue
			}
			ret := Pick(g.r, []string{"int64", "int64", "uint64"})
			if constant(b) && g.isZero(b) { // dividing by zero is an error
				continue
			}
			e := Bin(Pick(g.r, []string{"+", "-", "*", "/", "%", "&", "|", "^", "+"}), a, b)
			switch g.r.N(9) {
			case 0:
				e = Bin(Pick(g.r, []string{"+", "-", "|"}), e, a)
			case 1:
				e = Bin(Pick(g.r, []string{"+", "-", "*"}), Pick(g.r, ops), e)
			case 2:
				e = &Expr{Op: "?:", Args: []*Expr{Bin(Pick(g.r, []string{"==", "!=", "<", "<=", ">", ">="}), a, b), a, b}}
			case 3:
				e = Bin(Pick(g.r, []string{">>", "<<"}), e, g.lit(int64(g.r.N(12))))
			case 4:
				e = Bin(Pick(g.r, []string{">>", "<<"}), a, Bin("%", b, g.lit(int64(g.r.In(1, 16)))))
			}
			fn(ret, e)
			if g.r.P(.3) {
				fn("bool", Bin(Pick(g.r, []string{"==", "!=", "<", "<=", ">", ">="}), a, b))
			}
		}
	}
	// numbers that the type of the other operand may not hold
	for _, a := range ops {
		if constant(a) || g.r.P(.4) {
			continue
		}
		b := g.wideLit()
		if g.r.P(.2) {
			fn("int64", Bin(Pick(g.r, []string{"<<", ">>"}), b, Bin("%", a, g.lit(int64(g.r.In(1, 16))))))
			continue
		}
		if g.r.P(.3) {
			a, b = b, a
		}
		e := Bin(Pick(g.r, []string{"+", "-", "*", "&", "|", "^"}), a, b)
		switch g.r.N(5) {
		case 0:
			e = Bin(Pick(g.r, []string{"+", "-", "|", "*"}), e, Pick(g.r, ops))
		case 1:
			fn("bool", Bin(Pick(g.r, []string{"==", "<", ">="}), e, Pick(g.r, ops)))
			continue
		}
		fn(Pick(g.r, []string{"int64", "int64", "uint64"}), e)
	}
	// comparisons with numbers that the type of the other operand may not hold
	cmp := []string{"==", "!=", "<", "<=", ">", ">="}
	for i, a := range ops {
		if constant(a) || g.r.P(.4) {
			continue
		}
		n := int64(g.r.U64() >> g.r.In(1, 60))
		if bits := goBits(types, i); bits > 0 && g.r.P(.5) { // around the limits of the Go type
			n = int64(1)<<(bits-1) + int64(g.r.U64()>>1)%(int64(1)<<(bits-1))
			if g.r.P(.4) {
				n = int64(1)<<bits - int64(g.r.N(3)) + 1
			}
		} else if g.r.P(.4) {
			n = int64(1)<<Pick(g.r, []int{7, 8, 15, 16, 31, 32, 62}) - int64(g.r.N(2))
		}
		b := g.lit(n)
		if g.r.P(.3) {
			b = &Expr{Op: "neg", Args: []*Expr{b}}
		}
		if g.r.P(.3) && len(g.wconsts) > 0 {
			b = g.constRef(Pick(g.r, g.wconsts))
		}
		if g.r.P(.3) {
			a, b = b, a
		}
		fn("bool", Bin(Pick(g.r, cmp), a, b))
	}
	// floating point numbers
	if g.r.P(.6) {
		var fl []*Expr
		for _, k := range []string{"float16", "float32", "float64"} {
			f := &Field{Name: g.fieldName(n), Type: &Type{K: k}}
			d.Fields = append(d.Fields, f)
			fl = append(fl, id(f))
		}
		fl = append(fl, &Expr{Op: "float", Text: Pick(g.r, []string{"0.5", "2.0", "1.5", "4.0f", "0.25f", "1.0e1"})})
		for _, a := range fl {
			for _, b := range fl {
				if constant(a) && constant(b) {
					continue
				}
				fn("float64", Bin(Pick(g.r, []string{"+", "-", "*", "/", "+", "-"}), a, b))
				if g.r.P(.5) {
					fn("bool", Bin(Pick(g.r, cmp[2:]), a, b))
				}
				if g.r.P(.2) {
					fn("float64", Bin(Pick(g.r, []string{"+", "-", "*"}), &Expr{Op: "paren", Args: []*Expr{Bin("+", a, b)}}, Pick(g.r, fl)))
				}
			}
		}
	}
	g.add(d)
	g.s.Roots = append(g.s.Roots, d.Ref())
}
