package zs

import (
	"fmt"
	"strings"
)

// Prof steers schema generation (probabilities per field or declaration).
type Prof struct {
	MaxPkgs   int
	Compounds [2]int
	Fields    [2]int
	Packed    float64 // of arrays
	Array     float64
	Optional  float64
	If        float64
	Align     float64
	Dyn       float64 // dynamic bit fields
	Param     float64 // compound takes parameters
	Choice    int     // weights of compound kinds
	Union     int
	Struct    int
	Tmpl      float64
	Recursive float64
	Funcs     float64
	Defaults  float64
	Host      float64 // a struct around a type that takes parameters (twice for choices)
	Comp      int     // weight of compound types among field types
	Blob      int     // weight of string, bytes, extern
	Float     int
	IntW      int
	EnumW     int
	AllImport float64 // probability of a wildcard import
	NoBig     bool    // leave 64-bit wide types out
	Alias     float64 // probability of naming a type through a subtype
	Rich      float64 // functions with rich expressions
	Matrix    float64 // a struct whose functions apply operators to pairs of types
	Consts    float64 // further constants of all types, with constant expressions
	ManyPkgs  bool    // always MaxPkgs-1 or MaxPkgs packages
}

// DefaultProf covers everything.
func DefaultProf() Prof {
	return Prof{MaxPkgs: 3, Compounds: [2]int{3, 7}, Fields: [2]int{1, 6}, Packed: .4, Array: .3, Optional: .15, If: .12,
		Align: .06, Dyn: .06, Param: .35, Choice: 2, Union: 2, Struct: 7, Tmpl: .15, Recursive: .12, Funcs: .25, Defaults: .08, Host: .2,
		Comp: 5, Blob: 4, Float: 2, IntW: 14, EnumW: 4, AllImport: .6, Alias: .25, Rich: .12, Consts: .3}
}

type gen struct {
	r                                  *Rng
	p                                  Prof
	s                                  *Schema
	used                               map[string]bool // global type names, canonical
	consts                             []*Decl         // integer constants 0..7
	enums                              []*Decl
	masks                              []*Decl
	subs                               []*Decl
	comps                              []*Decl
	wconsts, fconsts, sconsts, bconsts []*Decl
	tmpls                              []*Decl
	targs                              map[*Decl][][]*Type // of the templates among comps
	pkg                                *Pkg
	w                                  *World
}

// Generate makes a random schema.
func Generate(r *Rng, p Prof) *Schema {
	g := &gen{r: r, p: p, s: &Schema{}, used: map[string]bool{"t": true, "u": true, "key": true, "val": true, "typea": true, "typeb": true, "elem": true, "sel": true}}
	g.w = NewWorld(g.s)
	n := 1
	if p.MaxPkgs > 1 && (p.ManyPkgs || r.P(.5)) {
		n = r.In(2, p.MaxPkgs)
		if p.ManyPkgs {
			n = r.In(p.MaxPkgs-1, p.MaxPkgs)
		}
	}
	var names []string
	for i := 0; i < n; i++ {
		var nm string
		for {
			nm = Pick(r, []string{"alpha", "beta", "gamma_x", "delta", "eps1", "zeta", "eta", "theta2", "io_ta"})
			if r.P(.08) {
				nm = Pick(r, []string{"map", "type", "range", "go.select", "func", "fmt", "ztype", "zserio", "zstream", "any"})
			}
			if len(names) > 0 && r.P(.4) {
				nm = names[0] + "." + nm
			} else if r.P(.3) {
				nm = "top." + nm
			}
			ok := true
			for _, o := range names {
				if o == nm {
					ok = false
				}
			}
			if ok {
				break
			}
		}
		names = append(names, nm)
		g.s.Pkgs = append(g.s.Pkgs, &Pkg{Name: nm})
	}
	for i, pk := range g.s.Pkgs {
		g.pkg = pk
		share := func(a, b int) int { // spread declarations over packages
			k := r.In(a, b)
			if n > 1 {
				k = (k + n - 1 - i) / n
				if k == 0 && r.P(.5) {
					k = 1
				}
			}
			return k
		}
		for k := share(1, 3); k > 0; k-- {
			g.constant()
		}
		for r.P(p.Consts) {
			g.anyConst()
		}
		for k := share(1, 3); k > 0; k-- {
			g.enum()
		}
		for k := share(0, 2); k > 0; k-- {
			g.bitmask()
		}
		for k := share(0, 3); k > 0; k-- {
			g.subtype()
		}
		if r.P(p.Tmpl) {
			g.template()
		}
		k := share(p.Compounds[0], p.Compounds[1])
		if k == 0 && i == n-1 {
			k = 1
		}
		for ; k > 0; k-- {
			g.compound()
			if r.P(p.Alias) {
				g.alias()
			}
		}
		for _, t := range g.tmpls {
			if t.Pkg == pk.Name || r.P(.3) {
				g.instantiate(t)
			}
		}
	}
	if r.P(p.Matrix) {
		g.matrix()
	}
	g.finish()
	return g.s
}

func (g *gen) add(d *Decl) {
	d.Pkg = g.pkg.Name
	g.pkg.Decls = append(g.pkg.Decls, d)
}

func canon(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

func (g *gen) typeName() string {
	ws := []string{"Kappa", "Lane", "RoadSeg", "Tile_Map", "URLThing", "Node", "X", "GeoPoint", "Attr", "Header2", "TypeA", "Some_Data_Set", "IPv4Addr", "Error", "Struct1", "MyInt", "Range", "Func"}
	for {
		n := Pick(g.r, ws)
		if g.r.P(.6) {
			n += fmt.Sprint(g.r.N(30))
		}
		switch g.r.N(14) {
		case 0: // a lower-case name that no field has
			if n[0] != 'X' && n[0] != 'F' && !strings.HasPrefix(n, "Range") {
				n = strings.ToLower(n[:1]) + n[1:]
			}
		case 1: // another name that differs in case only
			if l := g.similar(); l != "" {
				return l
			}
		}
		if !g.used[canon(n)] {
			g.used[canon(n)] = true
			return n
		}
	}
}

// similar writes a name that is in use in another case, so that the names
// and their files differ nonetheless.
func (g *gen) similar() string {
	for _, p := range g.s.Pkgs {
		for _, d := range p.Decls {
			n := d.Name
			if strings.Contains(n, "_") || n[0] < 'A' || n[0] > 'Z' {
				continue
			}
			l := n[:1] + strings.ToLower(n[1:])
			up := false // a capital after a small letter: another file name
			for i := 2; i < len(n); i++ {
				up = up || n[i] >= 'A' && n[i] <= 'Z' && n[i-1] >= 'a' && n[i-1] <= 'z'
			}
			if up && !g.used["="+l] {
				g.used["="+l] = true
				return l
			}
		}
	}
	return ""
}

var fieldPool = []string{"a", "b", "c", "x", "y", "z", "n", "id", "name", "numItems", "item_count", "data", "value", "type_", "kind",
	"func", "range", "map", "len", "err", "w", "r", "index", "present", "element", "theField", "field_2", "lengthM", "HTTPCode", "camelCaseName",
	"snake_case_name", "elem", "delta", "context", "size", "string_", "tempValue", "interface", "var", "go", "select", "nil", "make", "append", "int_", "i", "ok", "v", "self", "x1", "x_2", "fmt", "errors", "zserio", "ztype"}

// names hands out field names unique within a compound.
type names map[string]bool

func (g *gen) fieldName(n names) string {
	for i := 0; ; i++ {
		s := Pick(g.r, fieldPool)
		if len(g.consts) > 0 && g.r.P(.03) { // hides the constant
			s = Pick(g.r, g.consts).Name
		}
		if i > 10 {
			s += fmt.Sprint(g.r.N(100))
		}
		if !n[canon(s)] {
			n[canon(s)] = true
			return s
		}
	}
}

func ip(n int64) *int64 { return &n }

func (g *gen) constant() {
	nm := g.typeName()
	if g.r.P(.5) {
		nm = strings.ToUpper(nm) + "_MAX"
		if g.used[canon(nm)] {
			return
		}
		g.used[canon(nm)] = true
	}
	v := g.lit(int64(g.r.N(8)))
	switch g.r.N(4) {
	case 0:
		if len(g.consts) > 0 {
			c := Pick(g.r, g.consts)
			v = Bin("%", Bin("+", g.constRef(c), Lit(int64(g.r.N(5)))), Lit(int64(1+g.r.N(7))))
		}
	case 1:
		v = Bin(">>", &Expr{Op: "int", Text: "0x1F"}, Lit(int64(2+g.r.N(3))))
	}
	d := &Decl{Kind: "const", Name: nm, Type: &Type{K: Pick(g.r, []string{"uint8", "uint16", "uint32", "int32", "int64", "varsize", "uint64", "varuint16"})}, Value: v}
	g.add(d)
	g.consts = append(g.consts, d)
}

func (g *gen) constRef(d *Decl) *Expr { return &Expr{Op: "const", Ref: d.Ref()} }

var itemPool = []string{"RED", "GREEN", "DARK_BLUE", "NONE", "UNKNOWN", "A", "B", "C1", "someItem", "Other", "MAX", "MIN_VALUE", "x", "TYPE_2", "http", "ROAD", "PATH_WAY", "LeftTurn"}

func (g *gen) itemNames(n int) []string {
	p := append([]string(nil), itemPool...)
	Shuffle(g.r, p)
	return p[:n]
}

func (g *gen) enum() {
	d := &Decl{Kind: "enum", Name: g.typeName()}
	d.Type = g.pickType([]*Type{{K: "uint8"}, {K: "int8"}, {K: "uint16"}, {K: "int16"}, {K: "int32"}, {K: "uint32"}, {K: "int64"}, {K: "uint64"},
		{K: "bit", Bits: g.r.In(3, 33)}, {K: "int", Bits: g.r.In(4, 40)}, {K: "varuint16"}, {K: "varint16"}, {K: "varint32"}, {K: "varuint32"}})
	signed := strings.HasPrefix(d.Type.K, "int") || strings.HasPrefix(d.Type.K, "varint")
	next := int64(0)
	for i, n := range g.itemNames(g.r.In(1, 6)) {
		it := &Item{Name: n}
		if g.r.P(.35) {
			if i == 0 && signed && g.r.P(.5) {
				next = -int64(g.r.In(1, 3))
			}
			next += int64(g.r.N(1))
			if d.Type.K != "bit" && d.Type.K != "int" && g.r.P(.4) {
				next += int64(g.r.N(10))
			}
			it.Value = Lit(next)
			if next > 0 && g.r.P(.3) {
				it.Value = &Expr{Op: "int", Text: g.digits(next)}
			}
			if next > 1 && g.r.P(.2) {
				it.Value = Bin("+", Lit(next-1), Lit(1))
			}
		}
		next++
		d.Items = append(d.Items, it)
	}
	g.add(d)
	g.enums = append(g.enums, d)
}

func (g *gen) pickType(t []*Type) *Type { return Pick(g.r, t) }

func (g *gen) bitmask() {
	d := &Decl{Kind: "bitmask", Name: g.typeName()}
	d.Type = g.pickType([]*Type{{K: "uint8"}, {K: "uint16"}, {K: "uint32"}, {K: "uint64"}, {K: "bit", Bits: g.r.In(8, 40)}, {K: "varuint16"}, {K: "varuint32"}})
	bit := 0
	for i, n := range g.itemNames(g.r.In(1, 4)) {
		it := &Item{Name: n}
		if i == 0 && g.r.P(.15) {
			it.Value = Lit(0)
			d.Items = append(d.Items, it)
			bit = 0
			continue
		}
		if g.r.P(.4) {
			if bit < 4 { // four items fit eight bits
				bit += g.r.N(2)
			}
			v := int64(1) << bit
			if g.r.P(.25) && bit < 4 {
				v |= v << 1
				bit++
			}
			it.Value = Lit(v)
			if g.r.P(.3) {
				it.Value = &Expr{Op: "int", Text: g.digits(v)}
			}
		}
		bit++
		d.Items = append(d.Items, it)
	}
	g.add(d)
	g.masks = append(g.masks, d)
}

// intType picks a numeric type wide enough for 0..7.
func (g *gen) intType() *Type {
	switch g.r.W(8, 5, 4) {
	case 0:
		return &Type{K: Pick(g.r, []string{"uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64"})}
	case 1:
		if g.r.P(.6) {
			return &Type{K: "bit", Bits: g.r.In(3, g.r.In(3, 64))}
		}
		return &Type{K: "int", Bits: g.r.In(4, g.r.In(4, 64))}
	}
	return &Type{K: Pick(g.r, []string{"varint", "varint16", "varint32", "varint64", "varuint", "varuint16", "varuint32", "varuint64", "varsize"})}
}

func (g *gen) anyIntType() *Type {
	if g.r.P(.25) {
		k := "bit"
		if g.r.P(.5) {
			k = "int"
		}
		return &Type{K: k, Bits: g.r.In(1, g.r.In(1, 64))}
	}
	return g.intType()
}

func (g *gen) subtype() {
	var t *Type
	switch g.r.W(5, 2, 2, 2) {
	case 0:
		t = g.anyIntType()
	case 1:
		t = &Type{K: Pick(g.r, []string{"bool", "string", "float16", "float32", "float64"})}
	case 2:
		if len(g.enums) == 0 {
			return
		}
		t = g.ref(Pick(g.r, g.enums))
	case 3:
		if len(g.subs) == 0 {
			return
		}
		t = g.ref(Pick(g.r, g.subs))
	}
	d := &Decl{Kind: "subtype", Name: g.typeName(), Type: t}
	g.add(d)
	g.subs = append(g.subs, d)
}

// alias declares a subtype of a compound, an enum, a bitmask or another
// subtype, those of other packages preferred.
func (g *gen) alias() {
	for try := 0; try < 4; try++ {
		l := [][]*Decl{g.comps, g.comps, g.enums, g.masks, g.subs}[g.r.N(5)]
		if len(l) == 0 {
			continue
		}
		t := Pick(g.r, l)
		if t.Pkg == g.pkg.Name && g.r.P(.5) {
			continue
		}
		d := &Decl{Kind: "subtype", Name: g.typeName(), Type: g.inst(t)}
		g.add(d)
		g.subs = append(g.subs, d)
		return
	}
}

// end follows subtypes to the type they name; nil for builtin types.
func (g *gen) end(d *Decl) *Decl {
	for d != nil && d.Kind == "subtype" {
		if d.Type.K != "ref" {
			return nil
		}
		d = g.s.Find(d.Type.Ref)
	}
	return d
}

// via names d directly or through a subtype.
func (g *gen) via(d *Decl) *Type {
	if g.r.P(g.p.Alias * 1.5) {
		var l []*Decl
		for _, s := range g.subs {
			if g.end(s) == d {
				l = append(l, s)
			}
		}
		if len(l) > 0 {
			return g.ref(Pick(g.r, l))
		}
	}
	return g.inst(d)
}

// plainSub picks a subtype that takes no arguments.
func (g *gen) plainSub() *Type {
	for try := 0; try < 4 && len(g.subs) > 0; try++ {
		d := Pick(g.r, g.subs)
		if e := g.end(d); e == nil || len(e.Params) == 0 {
			return g.ref(d)
		}
	}
	return nil
}

func (g *gen) ref(d *Decl) *Type { return &Type{K: "ref", Ref: d.Ref()} }

// term is an integer expression with bounds.
type term struct {
	e      *Expr
	lo, hi int64
}

// scope is what expressions of the compound under construction may use.
type scope struct {
	d      *Decl
	n      names
	ints   []term  // values in 0..7
	bools  []*Expr // bool fields
	enums  []*Expr // with refs
	enumD  []*Decl
	masks  []*Expr
	maskD  []*Decl
	arrays []*Expr
	comps  []*Expr // compound fields
	compD  []*Inst
	ai, af []operand // integer and float operands of rich expressions
	as, ab []*Expr   // strings, bools
	an     []*Expr   // enums and bitmasks
	anD    []*Decl
	ac     []*Expr // structs
	acT    []*Type
}

// small is an integer term within 0..max.
func (g *gen) small(sc *scope, max int64) *Expr {
	for try := 0; try < 6; try++ {
		switch g.r.W(6, 2, 2, 1, 1) {
		case 0:
			if len(sc.ints) > 0 {
				t := Pick(g.r, sc.ints)
				if t.hi <= max {
					return t.e
				}
				return Bin("%", t.e, Lit(max+1))
			}
		case 1:
			return g.lit(int64(g.r.N(int(max) + 1)))
		case 2:
			if len(g.consts) > 0 && max >= 7 {
				return g.constRef(Pick(g.r, g.consts))
			}
		case 3:
			if len(sc.ints) > 0 {
				t := Pick(g.r, sc.ints)
				if t.hi < max {
					return Bin("+", t.e, Lit(max-t.hi))
				}
				return Bin("/", t.e, Lit(2))
			}
		case 4:
			if len(sc.arrays) > 0 {
				return Bin("%", &Expr{Op: "lengthof", Args: []*Expr{Pick(g.r, sc.arrays)}}, Lit(max+1))
			}
		}
	}
	return Lit(int64(g.r.N(int(max) + 1)))
}

func (g *gen) cond(sc *scope, depth int) *Expr {
	for try := 0; try < 8; try++ {
		switch g.r.W(8, 3, 3, 3, 3, 2) {
		case 0:
			if len(sc.ints) == 0 {
				continue
			}
			t := Pick(g.r, sc.ints)
			switch g.r.N(4) {
			case 0:
				return Bin("==", Bin("%", t.e, Lit(2)), Lit(int64(g.r.N(2))))
			case 1:
				return Bin("!=", Bin("&", t.e, Lit(int64(1+g.r.N(6)))), Lit(0))
			}
			return Bin(Pick(g.r, []string{"==", "!=", "<", "<=", ">", ">="}), t.e, g.lit(int64(g.r.N(7))))
		case 1:
			if len(sc.bools) > 0 {
				b := Pick(g.r, sc.bools)
				if g.r.P(.3) {
					return &Expr{Op: "!", Args: []*Expr{b}}
				}
				return b
			}
		case 2:
			if len(sc.enums) > 0 {
				k := g.r.N(len(sc.enums))
				d := sc.enumD[k]
				return Bin(Pick(g.r, []string{"==", "!="}), sc.enums[k], &Expr{Op: "item", Ref: d.Ref(), Text: Pick(g.r, d.Items).Name})
			}
		case 3:
			if len(sc.masks) > 0 {
				k := g.r.N(len(sc.masks))
				d := sc.maskD[k]
				return &Expr{Op: "isset", Args: []*Expr{sc.masks[k], {Op: "item", Ref: d.Ref(), Text: Pick(g.r, d.Items).Name}}}
			}
		case 4:
			if depth < 2 {
				return Bin(Pick(g.r, []string{"&&", "||"}), g.cond(sc, depth+1), g.cond(sc, depth+1))
			}
		case 5:
			if len(sc.arrays) > 0 {
				return Bin(Pick(g.r, []string{">", "=="}), &Expr{Op: "lengthof", Args: []*Expr{Pick(g.r, sc.arrays)}}, Lit(int64(g.r.N(4))))
			}
		}
	}
	return Bin("==", Lit(1), Lit(int64(g.r.N(2))))
}

// open tells whether a type depends on template parameters.
func open(t *Type) bool {
	for _, a := range t.Targs {
		if open(a) {
			return true
		}
	}
	return t.K == "tparam"
}

// record notes a plain field for later expressions.
func (g *gen) record(sc *scope, f *Field) {
	e := ID(f.Name)
	if f.Type.K != "tparam" && len(sc.d.Tmpl) == 0 {
		g.use(sc, e, g.w.Resolve(nil, f.Type), f.Array != NoArray, false)
	}
	if f.Optional || f.If != nil {
		return
	}
	if f.Array != NoArray {
		if f.Type.K != "tparam" {
			sc.arrays = append(sc.arrays, e)
		}
		return
	}
	if open(f.Type) {
		return
	}
	g.plain(sc, e, g.w.Resolve(nil, f.Type), f.Lo, f.Hi)
}

// plain makes a field or parameter that is always there available.
func (g *gen) plain(sc *scope, e *Expr, rt *RT, lo, hi *int64) {
	switch rt.K {
	case "u", "i", "vu", "vi":
		if lo != nil {
			sc.ints = append(sc.ints, term{e, *lo, *hi})
		}
	case "bool":
		sc.bools = append(sc.bools, e)
	case "enum":
		sc.enums, sc.enumD = append(sc.enums, e), append(sc.enumD, rt.D)
	case "mask":
		sc.masks, sc.maskD = append(sc.masks, e), append(sc.maskD, rt.D)
	case "comp":
		sc.comps, sc.compD = append(sc.comps, e), append(sc.compD, rt.In)
		if rt.In.D.Kind != "struct" || e.Op == "dot" && len(e.Args) > 0 && e.Args[0].Op == "dot" {
			return
		}
		for i, f := range rt.In.D.Fields { // a.b terms
			if f.Array == NoArray && !f.Optional && f.If == nil {
				if e.Op == "dot" && g.r.P(.7) {
					continue
				}
				g.plain(sc, &Expr{Op: "dot", Text: f.Name, Args: []*Expr{e}}, g.w.F(rt.In, i), f.Lo, f.Hi)
			}
		}
		for _, f := range rt.In.D.Funcs {
			if strings.HasPrefix(f.Name, "fn") && g.r.P(.5) { // defined for all values
				z, s := int64(0), int64(7)
				g.plain(sc, &Expr{Op: "call", Text: f.Name, Args: []*Expr{e}}, g.w.Resolve(rt.In, f.Ret), &z, &s)
			}
		}
	}
}

// param gives d a parameter.
func (g *gen) param(sc *scope, t *Type) *Param {
	p := &Param{Name: g.fieldName(sc.n), Type: t}
	rt := g.w.Resolve(nil, t)
	switch rt.K {
	case "u", "i", "vu", "vi":
		p.Lo, p.Hi = ip(0), ip(7)
	}
	g.plain(sc, ID(p.Name), rt, p.Lo, p.Hi)
	if len(sc.d.Tmpl) == 0 {
		g.use(sc, ID(p.Name), rt, false, false)
	}
	sc.d.Params = append(sc.d.Params, p)
	return p
}

// args makes arguments for a compound; nil,false when impossible.
func (g *gen) args(sc *scope, in *Inst, array bool) (a []*Expr, index bool, ok bool) {
	for i := range in.D.Params {
		rt := g.w.Pt(in, i)
		switch rt.K {
		case "u", "i", "vu", "vi":
			if array && !index && g.r.P(.25) {
				a, index = append(a, &Expr{Op: "index"}), true
				continue
			}
			a = append(a, g.small(sc, 7))
		case "bool":
			if len(sc.bools) == 0 {
				return nil, false, false
			}
			a = append(a, Pick(g.r, sc.bools))
		case "enum", "mask":
			es, ds := sc.enums, sc.enumD
			if rt.K == "mask" {
				es, ds = sc.masks, sc.maskD
			}
			var c []*Expr
			for i, e := range es {
				if ds[i] == rt.D {
					c = append(c, e)
				}
			}
			if len(c) == 0 {
				return nil, false, false
			}
			a = append(a, Pick(g.r, c))
		case "comp":
			var c []*Expr
			for i, e := range sc.comps {
				if sc.compD[i] != rt.In {
					continue
				}
				// an instance of a template is a type of the package that uses it
				if len(rt.In.D.Tmpl) > 0 && (in.D.Pkg != sc.d.Pkg || e.Op != "id") {
					continue
				}
				c = append(c, e)
			}
			if len(c) == 0 {
				return nil, false, false
			}
			a = append(a, Pick(g.r, c))
		default:
			return nil, false, false
		}
	}
	return a, index, true
}

func (g *gen) leafType(sc *scope) *Type {
	for {
		switch g.r.W(g.p.IntW, g.p.Float, g.p.Blob, g.p.EnumW, 2, 2, 2) {
		case 0:
			return g.anyIntType()
		case 1:
			return &Type{K: Pick(g.r, []string{"float16", "float32", "float64"})}
		case 2:
			return &Type{K: Pick(g.r, []string{"string", "string", "bytes", "extern"})}
		case 3:
			if len(g.enums) > 0 {
				return g.ref(Pick(g.r, g.enums))
			}
		case 4:
			if len(g.masks) > 0 {
				return g.ref(Pick(g.r, g.masks))
			}
		case 5:
			if t := g.plainSub(); t != nil {
				return t
			}
		case 6:
			return &Type{K: "bool"}
		}
	}
}

// field makes one field of a compound; in a choice or union case only simple
// modifiers are used.
func (g *gen) field(sc *scope, inCase bool) *Field {
	f := &Field{Name: g.fieldName(sc.n)}
	array := g.r.P(g.p.Array)
	// the type
	compOK := len(g.comps) > 0 && g.r.N(30) < g.p.Comp*2
	switch {
	case len(sc.d.Tmpl) > 0 && g.r.P(.6):
		f.Type = &Type{K: "tparam", TP: Pick(g.r, sc.d.Tmpl)}
	case compOK:
		t := g.via(Pick(g.r, g.comps))
		a, index, ok := g.args(sc, g.w.Resolve(nil, t).In, array)
		if ok {
			f.Type = t
			f.Type.Args = a
			if index {
				f.MaxLen = 7
			}
		}
	case len(g.tmpls) > 0 && g.r.P(.15):
		f.Type = g.ref(Pick(g.r, g.tmpls))
		for range g.s.Find(f.Type.Ref).Tmpl {
			a := g.targ()
			if len(sc.d.Tmpl) > 0 && g.r.P(.6) {
				a = &Type{K: "tparam", TP: Pick(g.r, sc.d.Tmpl)}
			}
			f.Type.Targs = append(f.Type.Targs, a)
		}
	}
	if f.Type == nil && len(sc.ints) > 0 && g.r.P(g.p.Dyn) {
		f.Type = &Type{K: Pick(g.r, []string{"dbit", "dint"}), Len: Bin("+", Pick(g.r, sc.ints).e, Lit(int64(g.r.In(1, 20))))}
		if g.r.P(.4) { // the variables are at most 7
			f.Type.Len.Args[1] = Lit(int64(g.r.In(20, 57)))
		}
		if g.r.P(.3) {
			f.Type.Len = Lit(int64(g.r.In(1, 64)))
		}
	}
	if f.Type == nil {
		f.Type = g.leafType(sc)
	}
	isInt := false
	if !open(f.Type) {
		rt := g.w.Resolve(nil, f.Type)
		isInt = (rt.K == "u" || rt.K == "i" || rt.K == "vu" || rt.K == "vi") && rt.Len == nil && (rt.Bits == 0 || rt.Bits >= 4 || rt.K == "u" && rt.Bits >= 3)
	}
	if array {
		f.Array = AutoArray
		if g.r.P(.35) {
			f.Array = FixedArray
			f.Len = g.small(sc, 7)
		}
		f.Packed = g.r.P(g.p.Packed)
	} else if isInt && !inCase && g.r.P(.4) {
		f.Lo, f.Hi = ip(0), ip(int64(g.r.In(1, 7)))
	}
	if !inCase && g.r.P(g.p.Align) {
		f.Align = Pick(g.r, []int{1, 2, 4, 8, 8, 8, 16, 32, 64, 3, 7, 24})
	}
	if !inCase {
		if g.r.P(g.p.Optional) {
			f.Optional = true
		} else if g.r.P(g.p.If) {
			f.If = g.cond(sc, 0)
		}
	}
	return f
}

// targ is a template argument.
func (g *gen) targ() *Type {
	switch g.r.W(5, 2, 2, 2, 3) {
	case 0:
		if g.r.P(.2) {
			return g.anyIntType()
		}
		return &Type{K: Pick(g.r, []string{"uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "varint", "varuint16", "varsize", "varint32"})}
	case 1:
		return &Type{K: Pick(g.r, []string{"bool", "string", "float32", "float64", "float16"})}
	case 2:
		if len(g.enums) > 0 {
			return g.ref(Pick(g.r, g.enums))
		}
	case 3:
		if len(g.masks) > 0 {
			return g.ref(Pick(g.r, g.masks))
		}
	case 4:
		for _, d := range g.comps {
			if len(d.Params) == 0 && g.r.P(.5) {
				return g.via(d)
			}
		}
	}
	return &Type{K: "uint32"}
}

func (g *gen) template() {
	d := &Decl{Kind: "struct", Name: g.typeName(), Tmpl: []string{"T"}}
	if g.r.P(.4) {
		d.Tmpl = []string{"KEY", "VAL"}
	}
	sc := &scope{d: d, n: names{}}
	g.add(d)
	f := &Field{Name: g.fieldName(sc.n), Type: &Type{K: "tparam", TP: d.Tmpl[0]}}
	if g.r.P(.4) {
		f.Array = AutoArray
		f.Packed = g.r.P(g.p.Packed)
	}
	d.Fields = append(d.Fields, f)
	for i := g.r.In(0, 3); i > 0; i-- {
		f := g.field(sc, false)
		d.Fields = append(d.Fields, f)
		g.record(sc, f)
	}
	g.tmpls = append(g.tmpls, d)
}

func (g *gen) instantiate(t *Decl) {
	d := &Decl{Kind: "instantiate", Name: g.typeName(), Type: g.ref(t)}
	for range t.Tmpl {
		d.Type.Targs = append(d.Type.Targs, g.targ())
	}
	g.add(d)
	g.s.Roots = append(g.s.Roots, d.Ref())
}

func (g *gen) compound() {
	d := &Decl{Name: g.typeName()}
	d.Pkg = g.pkg.Name
	sc := &scope{d: d, n: names{}}
	switch g.r.W(g.p.Struct, g.p.Choice, g.p.Union) {
	case 0:
		d.Kind = "struct"
		g.structBody(sc)
	case 1:
		d.Kind = "choice"
		g.choiceBody(sc)
	case 2:
		d.Kind = "union"
		if g.r.P(g.p.Param / 2) {
			g.params(sc)
			if g.r.P(g.p.Funcs / 2) {
				g.function(sc)
			}
		}
		for i := g.r.In(1, 4); i > 0; i-- {
			f := g.field(sc, true)
			d.Fields = append(d.Fields, f)
			g.branch(sc, f)
		}
		g.richFuncs(sc)
	}
	if g.r.P(g.p.Tmpl) {
		g.abstract(d)
	}
	g.add(d)
	g.comps = append(g.comps, d)
	if len(d.Params) > 0 {
		p := g.p.Host
		if d.Kind == "choice" {
			p *= 2
		}
		if g.r.P(p) {
			g.host(d)
		}
		return
	}
	if len(d.Tmpl) == 0 {
		g.s.Roots = append(g.s.Roots, d.Ref())
		return
	}
	for n := g.r.In(1, 2); n > 0; n-- {
		i := &Decl{Kind: "instantiate", Name: g.typeName(), Type: g.inst(d)}
		g.add(i)
		g.s.Roots = append(g.s.Roots, i.Ref())
	}
}

// host declares a struct with members of a type that takes parameters, and the
// fields that they are given.
func (g *gen) host(c *Decl) {
	d := &Decl{Kind: "struct", Name: g.typeName()}
	d.Pkg = g.pkg.Name
	sc := &scope{d: d, n: names{}}
	add := func(f *Field) {
		d.Fields = append(d.Fields, f)
		g.record(sc, f)
	}
	in := g.w.Resolve(nil, g.via(c)).In
	for i := range in.D.Params {
		f := &Field{Name: g.fieldName(sc.n)}
		switch rt := g.w.Pt(in, i); rt.K {
		case "u", "i", "vu", "vi":
			f.Type, f.Lo, f.Hi = g.intType(), ip(0), ip(7)
		case "bool":
			f.Type = &Type{K: "bool"}
		case "enum", "mask":
			f.Type = g.via(rt.D)
		case "comp":
			if len(rt.In.D.Tmpl) > 0 || len(rt.In.D.Params) > 0 {
				return
			}
			f.Type = g.via(rt.In.D)
		default:
			return
		}
		add(f)
	}
	for n := g.r.In(1, 3); n > 0; n-- {
		f := &Field{Name: g.fieldName(sc.n), Type: g.via(c)}
		in := g.w.Resolve(nil, f.Type).In
		array := g.r.P(.4)
		a, index, ok := g.args(sc, in, array)
		if !ok {
			return
		}
		f.Type.Args = a
		if array {
			f.Array = AutoArray
			f.Packed = g.r.P(g.p.Packed)
			if g.r.P(.3) {
				f.Array = FixedArray
				f.Len = g.small(sc, 7)
			}
		}
		if index {
			f.MaxLen = 7
		}
		f.Optional = g.r.P(.15)
		add(f)
	}
	g.add(d)
	g.comps = append(g.comps, d)
	g.s.Roots = append(g.s.Roots, d.Ref())
}

// params gives a compound parameters of all kinds.
func (g *gen) params(sc *scope) {
	for i := g.r.In(1, 2); i > 0; i-- {
		switch g.r.W(6, 1, 2, 1, 1) {
		case 0:
			g.param(sc, g.intType())
		case 1:
			g.param(sc, &Type{K: "bool"})
		case 2:
			if len(g.enums) > 0 {
				g.param(sc, g.via(Pick(g.r, g.enums)))
			}
		case 3:
			if len(g.masks) > 0 {
				g.param(sc, g.via(Pick(g.r, g.masks)))
			}
		case 4:
			for _, c := range g.comps { // a whole compound
				if len(c.Params) == 0 && g.r.P(.5) && (c.Kind == "struct" || g.r.P(.2)) {
					g.param(sc, g.via(c))
					break
				}
			}
		}
	}
}

// function declares a function that is defined for all values.
func (g *gen) function(sc *scope) {
	fn := &Func{Name: "fn" + strings.Title(strings.ReplaceAll(g.fieldName(sc.n), "_", "")), Ret: &Type{K: Pick(g.r, []string{"uint8", "uint16", "int32", "uint32", "int64", "varsize"})}}
	if g.r.P(.6) {
		fn.Body = g.small(sc, 7)
		sc.d.Funcs = append(sc.d.Funcs, fn)
		sc.ints = append(sc.ints, term{&Expr{Op: "call", Text: fn.Name}, 0, 7})
	} else {
		fn.Ret = &Type{K: "bool"}
		fn.Body = g.cond(sc, 0)
		sc.d.Funcs = append(sc.d.Funcs, fn)
		sc.bools = append(sc.bools, &Expr{Op: "call", Text: fn.Name})
	}
}

func (g *gen) structBody(sc *scope) {
	d := sc.d
	if g.r.P(g.p.Param) {
		g.params(sc)
	}
	for i := g.r.In(g.p.Fields[0], g.p.Fields[1]); i > 0; i-- {
		f := g.field(sc, false)
		if f.Array == NoArray && !f.Optional && f.If == nil && g.r.P(g.p.Defaults) {
			f.Default = g.defaultFor(f)
		}
		d.Fields = append(d.Fields, f)
		g.record(sc, f)
		if len(sc.ints) > 0 && g.r.P(g.p.Funcs/3) {
			g.function(sc)
		}
	}
	g.richFuncs(sc)
	if len(d.Params) == 0 && g.r.P(g.p.Recursive) {
		f := &Field{Name: g.fieldName(sc.n), Type: &Type{K: "ref", Ref: d.Ref()}}
		if g.r.P(.5) {
			f.Optional = true
		} else {
			f.Array = AutoArray
		}
		d.Fields = append(d.Fields, f)
	}
}

func (g *gen) defaultFor(f *Field) *Expr {
	if f.Type.K == "tparam" {
		return nil
	}
	rt := g.w.Resolve(nil, f.Type)
	switch rt.K {
	case "u", "i", "vu", "vi":
		if len(g.wconsts) > 0 && g.r.P(.2) {
			e := g.constRef(Pick(g.r, g.wconsts))
			v, err := g.w.TryEval(&Env{W: g.w}, e)
			c := &Codec{W: g.w}
			if err == nil && rt.Len == nil {
				if lo, hi := c.LeafRange(rt, nil); v.N.Cmp(lo) >= 0 && v.N.Cmp(hi) <= 0 {
					return e
				}
			}
		}
		if rt.Bits >= 4 || rt.Bits == 0 {
			if len(g.consts) > 0 && g.r.P(.3) {
				return g.constRef(Pick(g.r, g.consts))
			}
			if (rt.K == "i" || rt.K == "vi") && g.r.P(.3) {
				return Lit(-int64(g.r.In(1, 8)))
			}
			return g.lit(int64(g.r.N(8)))
		}
	case "bool":
		if len(g.bconsts) > 0 && g.r.P(.3) {
			return g.constRef(Pick(g.r, g.bconsts))
		}
		return &Expr{Op: "bool", Text: Pick(g.r, []string{"true", "false"})}
	case "string":
		if len(g.sconsts) > 0 && g.r.P(.4) {
			return g.constRef(Pick(g.r, g.sconsts))
		}
		return &Expr{Op: "str", Text: Pick(g.r, []string{`"default text"`, `"%d\t\""`, `""`})}
	case "f16", "f32", "f64":
		if len(g.fconsts) > 0 && g.r.P(.3) && rt.K != "f16" {
			return g.constRef(Pick(g.r, g.fconsts))
		}
		return &Expr{Op: "float", Text: Pick(g.r, []string{"0.5", "2.0", "1.5", "4.0f", "0.25f", "1.0e1"})}
	case "enum":
		return &Expr{Op: "item", Ref: rt.D.Ref(), Text: Pick(g.r, rt.D.Items).Name}
	case "mask":
		e := &Expr{Op: "item", Ref: rt.D.Ref(), Text: Pick(g.r, rt.D.Items).Name}
		if g.r.P(.4) {
			return Bin("|", e, &Expr{Op: "item", Ref: rt.D.Ref(), Text: Pick(g.r, rt.D.Items).Name})
		}
		return e
	}
	return nil
}

func (g *gen) choiceBody(sc *scope) {
	d := sc.d
	newCase := func(conds ...*Expr) *Case {
		c := &Case{Conds: conds, Field: -1}
		if g.r.P(.8) {
			c.Field = len(d.Fields)
			f := g.field(sc, true)
			d.Fields = append(d.Fields, f)
			defer g.branch(sc, f)
		}
		return c
	}
	if g.r.P(.15) { // parameters before the selector
		g.params(sc)
	}
	kind := g.r.W(5, 4, 2, 1)
	if kind == 1 && len(g.enums) == 0 || kind == 2 && len(g.masks) == 0 {
		kind = 0
	}
	var labels []*Expr
	cover := true
	switch kind {
	case 0:
		t := term{ID(g.param(sc, g.intType()).Name), 0, 7}
		if len(sc.ints) > 1 && g.r.P(.3) {
			t = Pick(g.r, sc.ints) // a member of a parameter
		}
		d.Sel = t.e
		switch g.r.N(8) {
		case 0:
			d.Sel = Bin("%", t.e, g.lit(int64(g.r.In(2, 8))))
		case 1:
			d.Sel = Bin("&", t.e, g.lit(7))
		case 2:
			d.Sel = Bin("-", g.lit(t.hi), t.e)
		case 3:
			d.Sel = Bin("+", t.e, g.lit(0))
		}
		for i := int64(0); i <= 7; i++ {
			labels = append(labels, g.lit(i))
		}
		if len(g.consts) > 0 && g.r.P(.2) { // a constant for its value
			c := g.constRef(Pick(g.r, g.consts))
			if v, err := g.w.TryEval(&Env{W: g.w}, c); err == nil {
				for i := range labels {
					if parseInt(labels[i].Text).Cmp(v.N) == 0 {
						labels[i] = c
					}
				}
			}
		}
	case 1, 2:
		var e *Decl
		if kind == 1 {
			e = Pick(g.r, g.enums)
			d.Sel = ID(g.param(sc, g.via(e)).Name)
			for i, x := range sc.enums {
				if sc.enumD[i] == e && g.r.P(.3) {
					d.Sel = x
				}
			}
		} else {
			e = Pick(g.r, g.masks)
			d.Sel = ID(g.param(sc, g.via(e)).Name)
			cover = false
		}
		dotted := g.r.P(.5)
		seen := map[string]bool{}
		for i, it := range e.Items {
			v := g.w.Items(e)[i].String()
			if seen[v] {
				continue
			}
			seen[v] = true
			if dotted {
				labels = append(labels, &Expr{Op: "item", Ref: e.Ref(), Text: it.Name})
			} else {
				labels = append(labels, &Expr{Op: "bareitem", Ref: e.Ref(), Text: it.Name})
			}
		}
	case 3:
		g.param(sc, &Type{K: "bool"})
		d.Sel = Pick(g.r, sc.bools)
		labels = []*Expr{{Op: "bool", Text: "true"}, {Op: "bool", Text: "false"}}
	}
	if g.r.P(.3) {
		g.params(sc)
	}
	if g.r.P(g.p.Funcs) {
		g.function(sc)
	}
	Shuffle(g.r, labels)
	def := !cover || g.r.P(.5)
	if def && len(labels) > 1 {
		labels = labels[:g.r.In(1, len(labels))]
	}
	for len(labels) > 0 {
		k := 1
		if g.r.P(.35) {
			k = g.r.In(1, len(labels))
		}
		d.Cases = append(d.Cases, newCase(labels[:k]...))
		labels = labels[k:]
	}
	if def {
		d.HasDef = true
		d.Def = -1
		if g.r.P(.7) {
			d.Def = len(d.Fields)
			d.Fields = append(d.Fields, g.field(sc, true))
		}
	}
	if len(d.Fields) == 0 {
		d.Cases[0].Field = 0
		d.Fields = append(d.Fields, g.field(sc, true))
	}
	g.richFuncs(sc)
}

// branch makes a field of a choice or union available to rich functions only.
func (g *gen) branch(sc *scope, f *Field) {
	if f.Type.K != "tparam" && len(sc.d.Tmpl) == 0 {
		g.use(sc, ID(f.Name), g.w.Resolve(nil, f.Type), f.Array != NoArray, false)
	}
}

func (g *gen) richFuncs(sc *scope) {
	for g.r.P(g.p.Rich) && len(sc.d.Funcs) < 12 {
		g.richFunc(sc)
	}
}

// finish writes imports and shuffles declarations.
// unhide replaces the constants that are hidden by the members of a compound.
func (g *gen) unhide(d *Decl) {
	member := map[string]bool{}
	for _, x := range d.Params {
		member[x.Name] = true
	}
	for _, x := range d.Fields {
		member[x.Name] = true
	}
	for _, x := range d.Funcs {
		member[x.Name] = true
	}
	d.Walk(func(e *Expr) {
		if e.Op != "const" {
			return
		}
		if c := g.s.Find(e.Ref); member[c.Name] {
			*e = *Lit(g.w.Const(c).N.Int64())
		}
	}, nil)
}

func (g *gen) finish() {
	if len(g.s.Roots) == 0 {
		g.pkg = g.s.Pkgs[len(g.s.Pkgs)-1]
		d := &Decl{Kind: "struct", Name: g.typeName(), Fields: []*Field{{Name: "a", Type: &Type{K: "uint8"}}}}
		g.add(d)
		g.s.Roots = append(g.s.Roots, d.Ref())
	}
	for _, p := range g.s.Pkgs {
		for _, d := range p.Decls {
			g.unhide(d)
		}
		Shuffle(g.r, p.Decls)
	}
	g.s.FixImports(func() bool { return g.r.P(g.p.AllImport) }, func() bool { return g.r.P(.2) })
}

// FixImports recomputes imports from what is used.
func (s *Schema) FixImports(wildcard, qualify func() bool) {
	for _, p := range s.Pkgs {
		p.Imports = nil
		wild := map[string]bool{}
		decided := map[string]bool{}
		single := map[string]bool{}
		use := func(ref string) {
			q, n := P(ref)
			if q == p.Name {
				return
			}
			if !decided[q] {
				decided[q] = true
				if wildcard() {
					wild[q] = true
					p.Imports = append(p.Imports, q+".*")
				}
			}
			if !wild[q] && !single[ref] {
				single[ref] = true
				p.Imports = append(p.Imports, q+"."+n)
			}
		}
		for _, d := range p.Decls {
			d.Walk(func(e *Expr) {
				if e.Ref != "" && e.Op != "bareitem" {
					use(e.Ref)
				}
			}, func(t *Type) {
				if t.Ref != "" {
					use(t.Ref)
				}
			})
		}
	}
}
