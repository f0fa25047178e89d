package zs

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
)

// Inst is a compound declaration with closed template arguments.
type Inst struct {
	S     *Schema
	D     *Decl
	Targs []*Type
	Key   string
	frt   []*RT
	prt   []*RT
}

// RT is a resolved type.
type RT struct {
	K     string // u i vu vi bool string f16 f32 f64 extern bytes enum mask comp
	Bits  int    // width of u and i (0: dynamic)
	Len   *Expr  // dynamic width
	Var   string // varint kind
	D     *Decl  // enum, bitmask
	Base  *RT    // of enum, bitmask
	In    *Inst
	Args  []*Expr
	Name  string // zserio name of the native type
	Items []*big.Int
}

// Packable tells whether a leaf can be delta packed.
func (t *RT) Packable() bool {
	switch t.K {
	case "u", "i", "vu", "vi", "enum", "mask":
		return true
	}
	return false
}

// IntLike tells whether values are integers.
func (t *RT) IntLike() bool { return t.Packable() }

// World resolves types of one schema.
type World struct {
	S     *Schema
	insts map[string]*Inst
	items map[*Decl][]*big.Int
	cst   map[*Decl]*EV
	busy  map[*Decl]bool
}

// NewWorld makes a world.
func NewWorld(s *Schema) *World {
	return &World{S: s, insts: map[string]*Inst{}, items: map[*Decl][]*big.Int{}, cst: map[*Decl]*EV{}, busy: map[*Decl]bool{}}
}

// Inst interns an instance.
func (w *World) Inst(ref string, targs []*Type) *Inst {
	k := ref
	for _, t := range targs {
		k += "," + typeKey(t)
	}
	if in := w.insts[k]; in != nil {
		return in
	}
	d := w.S.Find(ref)
	if d == nil {
		panic("no declaration " + ref)
	}
	if d.Kind == "instantiate" {
		in := w.Inst(d.Type.Ref, d.Type.Targs)
		w.insts[k] = in
		return in
	}
	if d.Kind == "subtype" {
		in := w.Inst(d.Type.Ref, d.Type.Targs)
		w.insts[k] = in
		return in
	}
	in := &Inst{S: w.S, D: d, Targs: targs, Key: k}
	w.insts[k] = in
	return in
}

func typeKey(t *Type) string {
	s := t.K
	if t.Bits > 0 {
		s += fmt.Sprint(":", t.Bits)
	}
	if t.Len != nil {
		s += "<" + t.Len.String() + ">"
	}
	if t.Ref != "" {
		s += "@" + t.Ref
	}
	for _, a := range t.Targs {
		s += "[" + typeKey(a) + "]"
	}
	return s
}

// Subst closes a type over an instance.
func (in *Inst) Subst(t *Type) *Type {
	if in == nil || len(in.Targs) == 0 {
		return t
	}
	if t.K == "tparam" {
		for i, n := range in.D.Tmpl {
			if n == t.TP {
				r := *in.Targs[i]
				if len(t.Args) > 0 {
					r.Args = t.Args
				}
				return &r
			}
		}
		panic("template parameter " + t.TP)
	}
	if len(t.Targs) == 0 {
		return t
	}
	r := *t
	r.Targs = nil
	for _, a := range t.Targs {
		r.Targs = append(r.Targs, in.Subst(a))
	}
	return &r
}

func fixedInt(k string) (signed bool, bits int, ok bool) {
	if n, err := strconv.Atoi(strings.TrimPrefix(k, "uint")); err == nil && strings.HasPrefix(k, "uint") {
		return false, n, true
	}
	if n, err := strconv.Atoi(strings.TrimPrefix(k, "int")); err == nil && strings.HasPrefix(k, "int") {
		return true, n, true
	}
	return false, 0, false
}

// Resolve resolves a type within an instance (may be nil).
func (w *World) Resolve(in *Inst, t *Type) *RT {
	t = in.Subst(t)
	switch t.K {
	case "bit":
		return &RT{K: "u", Bits: t.Bits, Name: "bit"}
	case "int":
		return &RT{K: "i", Bits: t.Bits, Name: "int"}
	case "dbit":
		return &RT{K: "u", Len: t.Len, Name: "bit"}
	case "dint":
		return &RT{K: "i", Len: t.Len, Name: "int"}
	case "bool", "string", "extern", "bytes":
		return &RT{K: t.K, Name: t.K}
	case "float16", "float32", "float64":
		return &RT{K: "f" + t.K[5:], Name: t.K}
	case "varint", "varint16", "varint32", "varint64":
		return &RT{K: "vi", Var: t.K, Name: t.K}
	case "varuint", "varuint16", "varuint32", "varuint64", "varsize":
		return &RT{K: "vu", Var: t.K, Name: t.K}
	case "ref":
		d := w.S.Find(t.Ref)
		if d == nil {
			panic("no declaration " + t.Ref)
		}
		switch d.Kind {
		case "subtype":
			r := w.Resolve(nil, d.Type)
			if len(t.Args) > 0 {
				c := *r
				c.Args = t.Args
				r = &c
			}
			return r
		case "instantiate":
			return &RT{K: "comp", In: w.Inst(d.Type.Ref, d.Type.Targs), Args: t.Args, Name: t.Ref}
		case "enum":
			return &RT{K: "enum", D: d, Base: w.Resolve(nil, d.Type), Name: t.Ref, Items: w.Items(d)}
		case "bitmask":
			return &RT{K: "mask", D: d, Base: w.Resolve(nil, d.Type), Name: t.Ref, Items: w.Items(d)}
		}
		return &RT{K: "comp", In: w.Inst(t.Ref, t.Targs), Args: t.Args, Name: t.Ref}
	}
	if s, n, ok := fixedInt(t.K); ok {
		if s {
			return &RT{K: "i", Bits: n, Name: t.K}
		}
		return &RT{K: "u", Bits: n, Name: t.K}
	}
	panic("type " + t.K)
}

// F is the resolved type of a field.
func (w *World) F(in *Inst, i int) *RT {
	if in.frt == nil {
		in.frt = make([]*RT, len(in.D.Fields))
	}
	if in.frt[i] == nil {
		in.frt[i] = w.Resolve(in, in.D.Fields[i].Type)
	}
	return in.frt[i]
}

// Pt is the resolved type of a parameter.
func (w *World) Pt(in *Inst, i int) *RT {
	if in.prt == nil {
		in.prt = make([]*RT, len(in.D.Params))
	}
	if in.prt[i] == nil {
		in.prt[i] = w.Resolve(in, in.D.Params[i].Type)
	}
	return in.prt[i]
}

// Items evaluates the item values of an enum or bitmask.
func (w *World) Items(d *Decl) []*big.Int {
	if v, ok := w.items[d]; ok {
		return v
	}
	var out []*big.Int
	var prev *big.Int
	for _, it := range d.Items {
		var v *big.Int
		switch {
		case it.Value != nil:
			v = w.Eval(&Env{W: w}, it.Value).N
		case d.Kind == "enum":
			v = big.NewInt(0)
			if prev != nil {
				v = new(big.Int).Add(prev, big.NewInt(1))
			}
		default: // next free power of two after the highest bit of the previous value
			v = big.NewInt(1)
			if prev != nil {
				v = new(big.Int).Lsh(big.NewInt(1), uint(prev.BitLen()))
			}
		}
		out = append(out, v)
		prev = v
	}
	w.items[d] = out
	return out
}

// NT is the native numeric type of an expression; nil for literals.
type NT struct {
	Name   string
	Signed bool
	Cont   int // container bits
	Rank   int
	Dyn    bool
	Bits   int
	Float  int
}

func (n *NT) minmax() (*big.Int, *big.Int) { return Range(n.Signed, n.Cont) }

// Range of an integer.
func Range(signed bool, bits int) (lo, hi *big.Int) {
	one := big.NewInt(1)
	if signed {
		h := new(big.Int).Lsh(one, uint(bits-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
	}
	return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
}

var varRank = map[string][2]int{ // rank, container
	"varint": {64, 64}, "varint16": {15, 16}, "varint32": {29, 32}, "varint64": {57, 64},
	"varuint": {64, 64}, "varuint16": {15, 16}, "varuint32": {29, 32}, "varuint64": {57, 64}, "varsize": {31, 64},
}

// VarRange of a variable length type.
func VarRange(k string) (lo, hi *big.Int) {
	one := big.NewInt(1)
	p := func(n uint) *big.Int { return new(big.Int).Sub(new(big.Int).Lsh(one, n), one) }
	switch k {
	case "varint16":
		hi = p(14)
	case "varint32":
		hi = p(28)
	case "varint64":
		hi = p(56)
	case "varint":
		return Range(true, 64)
	case "varuint16":
		return big.NewInt(0), p(15)
	case "varuint32":
		return big.NewInt(0), p(29)
	case "varuint64":
		return big.NewInt(0), p(57)
	case "varuint":
		return big.NewInt(0), p(64)
	case "varsize":
		return big.NewInt(0), p(31)
	}
	return new(big.Int).Neg(hi), hi
}

func container(bits int) int {
	for _, c := range []int{8, 16, 32} {
		if bits <= c {
			return c
		}
	}
	return 64
}

func (t *RT) nt() *NT {
	switch t.K {
	case "u", "i":
		if t.Len != nil {
			return &NT{Name: t.Name, Signed: t.K == "i", Cont: 64, Rank: 64, Dyn: true}
		}
		b := 0
		if t.Name == "bit" || t.Name == "int" {
			b = t.Bits
		}
		return &NT{Name: t.Name, Signed: t.K == "i", Cont: container(t.Bits), Rank: t.Bits, Bits: b}
	case "vu", "vi":
		r := varRank[t.Var]
		return &NT{Name: t.Var, Signed: t.K == "vi", Cont: r[1], Rank: r[0]}
	case "f16", "f32":
		return &NT{Name: t.Name, Float: 32}
	case "f64":
		return &NT{Name: t.Name, Float: 64}
	}
	return nil
}

func mixInt(a, b *NT) *NT {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if a.Name == b.Name && a.Bits == b.Bits && !a.Dyn && !b.Dyn {
		return a
	}
	signed := a.Signed && b.Signed
	r := *a
	if b.Rank > a.Rank {
		r = *b
	}
	r.Signed = signed
	if !signed {
		r.Name = strings.Replace(strings.Replace(r.Name, "uint", "int", 1), "int", "uint", 1)
		if r.Name == "uint" {
			r.Name = "bit"
		}
		if r.Name == "varsize" || a.Name == "varsize" && r.Rank == 31 {
			r.Name = "varsize"
		}
	}
	return &r
}

// EV is the value of an expression.
type EV struct {
	K  byte // i b f s o a
	N  *big.Int
	B  bool
	F  float64
	S  string
	V  *Val
	T  *NT
	RT *RT // of enum, mask, o, a (element)
}

func (e *EV) String() string {
	switch e.K {
	case 'i':
		return e.N.String()
	case 'b':
		return fmt.Sprint(e.B)
	case 'f':
		return fmt.Sprint(e.F)
	case 's':
		return strconv.Quote(e.S)
	}
	return "compound"
}

// NotDefined is panicked when an expression has no defined value (an
// intermediate result is not representable, a field is absent, ...).
type NotDefined struct{ Why string }

func undef(f string, a ...any) { panic(NotDefined{fmt.Sprintf(f, a...)}) }

// Env is where an expression is evaluated.
type Env struct {
	W        *World
	In       *Inst
	V        *Val
	Index    int
	HasIndex bool
}

// TryEval evaluates, reporting undefinedness.
func (w *World) TryEval(env *Env, e *Expr) (v *EV, err error) {
	defer func() {
		if r := recover(); r != nil {
			if n, ok := r.(NotDefined); ok {
				err = fmt.Errorf("undefined: %s", n.Why)
				return
			}
			panic(r)
		}
	}()
	return w.Eval(env, e), nil
}

// literal tells whether an expression consists of numbers only.
func literal(e *Expr) bool {
	switch e.Op {
	case "int", "paren", "pos", "neg", "~", "+", "-", "*", "/", "%", "&", "|", "^":
	default:
		return false
	}
	for _, a := range e.Args {
		if !literal(a) {
			return false
		}
	}
	return true
}

// widen is the type in which a literal is combined with an operand of type t.
func widen(t *NT, n *big.Int) *NT {
	if t == nil || t.Float > 0 {
		return t
	}
	c := *t
	c.Cont = 8
	for c.Cont < t.Cont {
		c.Cont *= 2
	}
	if c.Cont == 64 || inRange(n, &c) || !n.IsInt64() {
		return t
	}
	return &NT{Name: "int64", Signed: true, Cont: 64, Rank: 64}
}

func inRange(n *big.Int, t *NT) bool {
	lo, hi := Range(true, 64)
	if t != nil {
		if t.Float > 0 {
			return true
		}
		lo, hi = t.minmax()
	}
	return n.Cmp(lo) >= 0 && n.Cmp(hi) <= 0
}

func intv(n *big.Int, t *NT) *EV {
	if !inRange(n, t) {
		undef("%v not representable", n)
	}
	return &EV{K: 'i', N: n, T: t}
}

func valEV(v *Val, rt *RT) *EV {
	if v == nil {
		undef("absent")
	}
	switch rt.K {
	case "u", "i", "vu", "vi":
		return &EV{K: 'i', N: v.N, T: rt.nt()}
	case "enum", "mask":
		return &EV{K: 'i', N: v.N, RT: rt, T: rt.Base.nt()}
	case "bool":
		return &EV{K: 'b', B: v.B}
	case "f16", "f32", "f64":
		return &EV{K: 'f', F: math.Float64frombits(v.F), T: rt.nt()}
	case "string":
		return &EV{K: 's', S: string(v.S)}
	case "comp":
		return &EV{K: 'o', V: v, RT: rt}
	}
	undef("no value of %s", rt.K)
	return nil
}

// Eval evaluates an expression; panics with NotDefined.
func (w *World) Eval(env *Env, e *Expr) *EV {
	switch e.Op {
	case "int":
		return &EV{K: 'i', N: parseInt(e.Text)}
	case "bool":
		return &EV{K: 'b', B: e.Text == "true"}
	case "str":
		return &EV{K: 's', S: e.Text[1 : len(e.Text)-1]}
	case "float":
		bits := 64
		s := e.Text
		if strings.HasSuffix(s, "f") {
			bits = 32
			s = s[:len(s)-1]
		}
		f, err := strconv.ParseFloat(s, bits)
		if err != nil {
			undef("float")
		}
		return &EV{K: 'f', F: f, T: &NT{Name: "float" + fmt.Sprint(bits), Float: bits}}
	case "const":
		d := w.S.Find(e.Ref)
		return w.Const(d)
	case "item":
		ref := e.Ref
		if e.TP != "" {
			ref = env.In.Subst(&Type{K: "tparam", TP: e.TP}).Ref
		}
		rt := w.Resolve(nil, &Type{K: "ref", Ref: ref})
		for i, it := range rt.D.Items {
			if it.Name == e.Text {
				return &EV{K: 'i', N: rt.Items[i], RT: rt}
			}
		}
		panic("item " + e.Text)
	case "id":
		return w.ident(env, e.Text)
	case "index":
		if !env.HasIndex {
			undef("@index")
		}
		return &EV{K: 'i', N: big.NewInt(int64(env.Index))}
	case "paren":
		return w.Eval(env, e.Args[0])
	case "pos":
		return w.Eval(env, e.Args[0])
	case "neg":
		a := w.Eval(env, e.Args[0])
		if a.K == 'f' {
			return &EV{K: 'f', F: -a.F, T: a.T}
		}
		return intv(new(big.Int).Neg(a.N), a.T)
	case "!":
		return &EV{K: 'b', B: !w.Eval(env, e.Args[0]).B}
	case "~":
		a := w.Eval(env, e.Args[0])
		return intv(new(big.Int).Not(a.N), a.T)
	case "dot", "call":
		if len(e.Args) == 0 {
			return w.callFn(env.In, env.V, e.Text)
		}
		o := w.Eval(env, e.Args[0])
		if o.K != 'o' {
			undef("not a compound")
		}
		if e.Op == "call" {
			return w.callFn(o.RT.In, o.V, e.Text)
		}
		return w.ident(&Env{W: w, In: o.RT.In, V: o.V}, e.Text)
	case "idx":
		a := w.Eval(env, e.Args[0])
		i := w.Eval(env, e.Args[1])
		if a.K != 'a' || !i.N.IsInt64() || i.N.Sign() < 0 || i.N.Int64() >= int64(len(a.V.A)) {
			undef("index")
		}
		return valEV(a.V.A[i.N.Int64()], a.RT)
	case "lengthof":
		a := w.Eval(env, e.Args[0])
		if a.K != 'a' {
			undef("lengthof")
		}
		return &EV{K: 'i', N: big.NewInt(int64(len(a.V.A))), T: &NT{Name: "int64", Signed: true, Cont: 64, Rank: 64}}
	case "valueof":
		a := w.Eval(env, e.Args[0])
		return &EV{K: 'i', N: a.N, T: a.T}
	case "numbits":
		a := w.Eval(env, e.Args[0])
		if a.N.Sign() < 0 {
			undef("numbits of a negative number")
		}
		n := 0
		if a.N.Sign() > 0 {
			n = new(big.Int).Sub(a.N, big.NewInt(1)).BitLen()
			if n == 0 {
				n = 1
			}
		}
		r := &EV{K: 'i', N: big.NewInt(int64(n))}
		if !constant(e.Args[0]) {
			r.T = &NT{Name: "int64", Signed: true, Cont: 64, Rank: 64}
		}
		return r
	case "isset":
		a, b := w.Eval(env, e.Args[0]), w.Eval(env, e.Args[1])
		return &EV{K: 'b', B: new(big.Int).And(a.N, b.N).Cmp(b.N) == 0}
	case "?:":
		if w.Eval(env, e.Args[0]).B {
			return w.Eval(env, e.Args[1])
		}
		return w.Eval(env, e.Args[2])
	case "&&", "||":
		a := w.Eval(env, e.Args[0])
		if a.B == (e.Op == "||") {
			return &EV{K: 'b', B: a.B}
		}
		return &EV{K: 'b', B: w.Eval(env, e.Args[1]).B}
	}
	a, b := w.Eval(env, e.Args[0]), w.Eval(env, e.Args[1])
	if a.K == 's' && b.K == 's' {
		switch e.Op {
		case "+":
			return &EV{K: 's', S: a.S + b.S}
		case "==":
			return &EV{K: 'b', B: a.S == b.S}
		case "!=":
			return &EV{K: 'b', B: a.S != b.S}
		}
		undef("string %s", e.Op)
	}
	if a.K == 'b' && b.K == 'b' {
		switch e.Op {
		case "==":
			return &EV{K: 'b', B: a.B == b.B}
		case "!=":
			return &EV{K: 'b', B: a.B != b.B}
		}
		undef("bool %s", e.Op)
	}
	if a.K == 'f' || b.K == 'f' {
		return floatOp(e.Op, a, b)
	}
	if a.K != 'i' || b.K != 'i' {
		undef("operands of %s", e.Op)
	}
	cmp := map[string]func(int) bool{
		"==": func(c int) bool { return c == 0 }, "!=": func(c int) bool { return c != 0 },
		"<": func(c int) bool { return c < 0 }, "<=": func(c int) bool { return c <= 0 },
		">": func(c int) bool { return c > 0 }, ">=": func(c int) bool { return c >= 0 },
	}
	t := mixInt(a.T, b.T)
	if f := cmp[e.Op]; f != nil {
		return &EV{K: 'b', B: f(a.N.Cmp(b.N))}
	}
	r := new(big.Int)
	switch e.Op {
	case "<<", ">>":
		t = a.T
		if t == nil && b.T != nil {
			// the width of a shifted literal is not specified
			t = &NT{Name: "uint32", Cont: 31, Rank: 32}
			if literal(e.Args[0]) && (a.N.Sign() < 0 || a.N.BitLen() > 32) {
				t = widen(t, a.N)
			}
		}
		if !b.N.IsInt64() || b.N.Int64() < 0 || b.N.Int64() > 62 || t != nil && b.N.Int64() >= int64(t.Cont) {
			undef("shift count")
		}
		if e.Op == "<<" {
			r.Lsh(a.N, uint(b.N.Int64()))
		} else {
			r.Rsh(a.N, uint(b.N.Int64()))
		}
		return intv(r, t)
	}
	if a.T == nil && b.T != nil && literal(e.Args[0]) {
		t = widen(t, a.N)
	}
	if b.T == nil && a.T != nil && literal(e.Args[1]) {
		t = widen(t, b.N)
	}
	if !inRange(a.N, t) || !inRange(b.N, t) {
		undef("operand of %s", e.Op)
	}
	switch e.Op {
	case "+":
		r.Add(a.N, b.N)
	case "-":
		r.Sub(a.N, b.N)
	case "*":
		r.Mul(a.N, b.N)
	case "/", "%":
		if b.N.Sign() == 0 {
			undef("division by zero")
		}
		if e.Op == "/" {
			r.Quo(a.N, b.N)
		} else {
			r.Rem(a.N, b.N)
		}
	case "&":
		r.And(a.N, b.N)
	case "|":
		r.Or(a.N, b.N)
	case "^":
		r.Xor(a.N, b.N)
	default:
		panic("operator " + e.Op)
	}
	v := intv(r, t)
	if a.RT != nil && b.RT != nil && (e.Op == "|" || e.Op == "&" || e.Op == "^") {
		v.RT = a.RT
	}
	return v
}

func floatOp(op string, a, b *EV) *EV {
	conv := func(e *EV) float64 {
		if e.K == 'i' {
			if e.N.BitLen() > 24 {
				undef("integer too large for a float")
			}
			return float64(e.N.Int64())
		}
		return e.F
	}
	x, y := conv(a), conv(b)
	bits := 0
	for _, e := range []*EV{a, b} {
		if e.T != nil && e.T.Float > bits {
			bits = e.T.Float
		}
	}
	switch op {
	case "<":
		return &EV{K: 'b', B: x < y}
	case "<=":
		return &EV{K: 'b', B: x <= y}
	case ">":
		return &EV{K: 'b', B: x > y}
	case ">=":
		return &EV{K: 'b', B: x >= y}
	case "==":
		return &EV{K: 'b', B: x == y}
	case "!=":
		return &EV{K: 'b', B: x != y}
	}
	var r float64
	switch op {
	case "+":
		r = x + y
	case "-":
		r = x - y
	case "*":
		r = x * y
	case "/":
		if y == 0 {
			undef("division by zero")
		}
		r = x / y
	default:
		undef("float %s", op)
	}
	if math.IsInf(r, 0) || math.IsNaN(r) || float64(float32(r)) != r {
		undef("inexact") // keep to results exact in every width
	}
	return &EV{K: 'f', F: r, T: &NT{Float: bits}}
}

func parseInt(s string) *big.Int {
	n := new(big.Int)
	var ok bool
	l := strings.ToLower(s)
	switch {
	case strings.HasPrefix(l, "0x"):
		n, ok = n.SetString(l[2:], 16)
	case strings.HasSuffix(l, "b"):
		n, ok = n.SetString(l[:len(l)-1], 2)
	case len(l) > 1 && l[0] == '0':
		n, ok = n.SetString(l[1:], 8)
	default:
		n, ok = n.SetString(l, 10)
	}
	if !ok {
		panic("literal " + s)
	}
	return n
}

// Const evaluates a constant.
func (w *World) Const(d *Decl) *EV {
	if v, ok := w.cst[d]; ok {
		return v
	}
	if w.busy[d] {
		undef("cyclic constant")
	}
	w.busy[d] = true
	v := *w.Eval(&Env{W: w}, d.Value)
	v.T = nil
	w.cst[d] = &v
	return &v
}

func (w *World) ident(env *Env, name string) *EV {
	if env.In == nil || env.V == nil {
		undef("no object for %s", name)
	}
	if i := env.In.D.ParamIndex(name); i >= 0 {
		if i >= len(env.V.P) || env.V.P[i] == nil {
			undef("parameter %s unset", name)
		}
		return env.V.P[i]
	}
	i := env.In.D.FieldIndex(name)
	if i < 0 {
		panic("unknown name " + name + " in " + env.In.Key)
	}
	v := env.V.O[i]
	if v == nil {
		undef("field %s absent", name)
	}
	if env.In.D.Fields[i].Array != NoArray {
		return &EV{K: 'a', V: v, RT: w.F(env.In, i)}
	}
	return valEV(v, w.F(env.In, i))
}

func (w *World) callFn(in *Inst, v *Val, name string) *EV {
	for _, f := range in.D.Funcs {
		if f.Name == name {
			return w.convertTo(w.Eval(&Env{W: w, In: in, V: v}, f.Body), w.Resolve(in, f.Ret))
		}
	}
	panic("function " + name)
}

// convertTo gives a value the declared type (of a parameter or a function).
func (w *World) convertTo(e *EV, rt *RT) *EV {
	r := *e
	switch rt.K {
	case "u", "i", "vu", "vi":
		if e.K != 'i' {
			undef("type")
		}
		r.RT = nil
		r.T = rt.nt()
		if !inRange(r.N, r.T) {
			undef("conversion")
		}
	case "enum", "mask":
		r.RT = rt
		r.T = rt.Base.nt()
	case "f16", "f32", "f64":
		if e.K == 'i' {
			if e.N.BitLen() > 11 {
				undef("conversion")
			}
			r = EV{K: 'f', F: float64(e.N.Int64())}
		}
		r.T = rt.nt()
		if rt.K != "f64" && float64(float32(r.F)) != r.F {
			undef("conversion")
		}
	case "comp":
		r.RT = rt
	}
	return &r
}

// CallFn evaluates a function of an object.
func (w *World) CallFn(in *Inst, v *Val, name string) (r *EV, err error) {
	defer func() {
		if x := recover(); x != nil {
			if n, ok := x.(NotDefined); ok {
				err = fmt.Errorf("undefined: %s", n.Why)
				return
			}
			panic(x)
		}
	}()
	return w.callFn(in, v, name), nil
}
