package zs

import (
	"fmt"
	"strings"
)

// Confusable makes a schema whose template instances are easily mixed up:
// types and templates of the same name in several packages, arguments that
// differ in their width, package or order only, names that run together to the
// same text, and declarations that have the name an instance would get.
func Confusable(r *Rng) *Schema {
	for {
		if s := confusable(r); s != nil {
			return s
		}
	}
}

func confusable(r *Rng) *Schema {
	s := &Schema{}
	pk := Pick(r, [][]string{{"aa", "bb", "cc"}, {"zz.one", "zz.two", "zz.root"}, {"one", "one.two", "one.two.three"}, {"m", "b", "a"}})
	for _, n := range pk {
		s.Pkgs = append(s.Pkgs, &Pkg{Name: n})
	}
	used := map[string]bool{} // package and name in lower case
	add := func(p int, d *Decl) *Decl {
		d.Pkg = pk[p]
		k := pk[p] + ":" + strings.ToLower(d.Name)
		if used[k] {
			return nil
		}
		used[k] = true
		s.Pkgs[p].Decls = append(s.Pkgs[p].Decls, d)
		return d
	}
	at := map[string]int{}
	for i, n := range pk {
		at[n] = i
	}
	// upto are those of the packages up to p, so that there are no cycles.
	upto := func(l []*Decl, p int) (out []*Decl) {
		for _, d := range l {
			if at[d.Pkg] <= p {
				out = append(out, d)
			}
		}
		return out
	}
	ref := func(d *Decl, targs ...*Type) *Type {
		return &Type{K: "ref", Ref: d.Ref(), Qual: true, Targs: targs}
	}
	ints := func() *Type {
		switch r.N(5) {
		case 0:
			return &Type{K: "bit", Bits: Pick(r, []int{5, 6, 7, 8, 16, 32, 33, 64})}
		case 1:
			return &Type{K: "int", Bits: Pick(r, []int{5, 6, 7, 8, 16, 32, 33, 64})}
		case 2:
			return &Type{K: Pick(r, []string{"varint16", "varuint16", "varint", "varuint", "varsize"})}
		}
		return &Type{K: Pick(r, []string{"uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64"})}
	}

	// Constants of the same name.
	var hasLen []int
	for p := range pk {
		if r.P(.5) {
			hasLen = append(hasLen, p)
			add(p, &Decl{Kind: "const", Name: "LEN", Type: &Type{K: Pick(r, []string{"uint8", "uint32", "int16"})}, Value: Lit(int64(r.In(1, 6)))})
		}
	}
	length := func(p int) *Expr {
		var below []int
		for _, q := range hasLen {
			if q == p {
				below = []int{q}
				break
			}
			if q < p {
				below = append(below, q)
			}
		}
		if len(below) != 1 {
			return Lit(int64(r.In(1, 6)))
		}
		return &Expr{Op: "const", Ref: pk[below[0]] + ":LEN"}
	}
	third := "THREE"
	if r.P(.2) { // like a template parameter
		third = Pick(r, []string{"T", "U", "ELEM"})
	}

	// The types that are used as arguments.
	var args, enums []*Decl
	for i := r.In(2, 5); i > 0; i-- {
		name := Pick(r, []string{"A", "B", "AB", "BC", "C", "Item", "BItem", "Ite", "M"})
		kind := Pick(r, []string{"struct", "struct", "enum", "enum", "subtype", "bitmask", "union"})
		for _, p := range []int{0, 1, 2} {
			if r.P(.35) {
				continue
			}
			if r.P(.2) {
				kind = Pick(r, []string{"struct", "enum"})
			}
			d := &Decl{Kind: kind, Name: name}
			switch kind {
			case "struct", "union":
				for k := r.In(1, 3); k > 0; k-- {
					d.Fields = append(d.Fields, &Field{Name: fmt.Sprintf("m%d", len(d.Fields)), Type: ints()})
				}
			case "subtype":
				d.Type = ints()
			default:
				d.Type = Pick(r, []*Type{{K: "uint8"}, {K: "uint16"}, {K: "bit", Bits: r.In(7, 20)}, {K: "uint32"}})
				for n, it := range []string{"ONE", "TWO", third} {
					x := &Item{Name: it}
					if kind == "bitmask" || r.P(.5) {
						x.Value = Lit(int64(1<<n) + int64(r.N(2))*int64(8<<n))
					}
					d.Items = append(d.Items, x)
				}
				if r.P(.5) {
					Shuffle(r, d.Items)
				}
				if d.Kind == "enum" { // increasing, so that no two are equal
					for n, x := range d.Items {
						x.Value = nil
						if r.P(.5) {
							x.Value = Lit(int64(n*10 + r.N(10)))
						}
					}
				}
			}
			if d = add(p, d); d != nil {
				args = append(args, d)
				if d.Kind == "enum" {
					enums = append(enums, d)
				}
			}
		}
	}

	// Members with the names of template parameters.
	var head *Decl
	if r.P(.3) {
		head = add(0, &Decl{Kind: "struct", Name: "Head", Fields: []*Field{
			{Name: "T", Type: &Type{K: "bit", Bits: 3}}, {Name: "U", Type: &Type{K: "bit", Bits: 2}}, {Name: "ELEM", Type: &Type{K: "bit", Bits: 3}}}})
	}

	// The templates.
	type templ struct {
		d     *Decl
		enums bool // the first argument has to be an enum
	}
	var templs []*templ
	tp := func(n string) *Type { return &Type{K: "tparam", TP: n} }
	for i := r.In(1, 4); i > 0; i-- {
		name := Pick(r, []string{"Box", "Bo", "X", "XA", "XAB", "BoxB", "Pair"})
		for _, p := range []int{0, 1, 2} {
			if r.P(.4) {
				continue
			}
			d := &Decl{Kind: Pick(r, []string{"struct", "struct", "union", "choice"}), Name: name}
			d.Tmpl = Pick(r, [][]string{{"T"}, {"T"}, {"T", "U"}, {"U", "T"}, {"ELEM"}})
			t := &templ{d: d, enums: len(enums) > 0 && r.P(.3)}
			for k, q := range d.Tmpl {
				f := &Field{Name: fmt.Sprintf("v%d", k), Type: tp(q)}
				d.Fields = append(d.Fields, f)
				if r.P(.4) {
					g := &Field{Name: fmt.Sprintf("list%d", k), Type: tp(q), Array: AutoArray, MaxLen: 4, Packed: r.P(.4)}
					d.Fields = append(d.Fields, g)
				}
			}
			if r.P(.4) {
				f := &Field{Name: "own", Type: ints()}
				if l := upto(args, p); len(l) > 0 && r.P(.5) {
					f.Type = ref(Pick(r, l))
				}
				d.Fields = append(d.Fields, f)
			}
			if r.P(.25) {
				d.Fields = append(d.Fields, &Field{Name: "few", Type: tp(Pick(r, d.Tmpl)), Array: FixedArray, Packed: r.P(.3), Len: length(p)})
			}
			if r.P(.25) {
				d.Fields = append(d.Fields, &Field{Name: "broad", Type: &Type{K: "dbit", Len: length(p)}})
			}
			if r.P(.25) {
				d.Funcs = append(d.Funcs, &Func{Name: "len", Ret: &Type{K: "uint32"}, Body: Bin("+", length(p), Lit(1))})
			}
			if len(templs) > 0 && r.P(.3) {
				in := Pick(r, templs)
				if at[in.d.Pkg] <= p && (!in.enums || t.enums) {
					var l []*Type
					for k := range in.d.Tmpl {
						if k == 0 && in.enums {
							l = append(l, tp(d.Tmpl[0]))
						} else {
							l = append(l, Pick(r, []*Type{tp(Pick(r, d.Tmpl)), ints()}))
						}
					}
					x := ref(in.d, l...)
					if in.d.Kind == "choice" {
						x.Args = []*Expr{Lit(int64(r.In(1, 2)))}
					}
					d.Fields = append(d.Fields, &Field{Name: "inner", Type: x})
				}
			}
			if d.Kind == "struct" && head != nil && r.P(.6) {
				member := func() *Expr {
					return &Expr{Op: "dot", Text: Pick(r, append([]string{"U"}, d.Tmpl...)), Args: []*Expr{ID("head")}}
				}
				d.Fields = append([]*Field{{Name: "head", Type: ref(head)}}, d.Fields...)
				d.Fields = append(d.Fields, &Field{Name: "some2", Type: tp(Pick(r, d.Tmpl)), Array: FixedArray, Packed: r.P(.3), Len: member()})
				if r.P(.5) {
					d.Fields = append(d.Fields, &Field{Name: "wide2", Type: &Type{K: "dbit", Len: Bin("+", member(), Lit(1))}})
				}
				d.Funcs = append(d.Funcs, &Func{Name: "heads", Ret: &Type{K: "uint32"}, Body: Bin("+", member(), member())})
			}
			if d.Kind == "struct" {
				for _, f := range d.Fields {
					f.Optional = f.Name != "head" && r.P(.15)
				}
				item := func(k string) *Expr { return &Expr{Op: "item", TP: d.Tmpl[0], Text: k} }
				value := func(k string) *Expr { return &Expr{Op: "valueof", Args: []*Expr{item(k)}} }
				if t.enums && r.P(.4) {
					d.Fields = append(d.Fields, &Field{Name: "some", Type: tp(Pick(r, d.Tmpl)), Array: FixedArray, Packed: r.P(.3), Len: Bin("+", value(Pick(r, []string{"ONE", third})), Lit(1))})
				}
				if t.enums && r.P(.3) {
					d.Fields = append(d.Fields, &Field{Name: "wide", Type: &Type{K: Pick(r, []string{"dbit", "dint"}), Len: Bin("+", value("TWO"), Lit(1))}})
				}
				if t.enums && r.P(.4) {
					d.Funcs = append(d.Funcs, &Func{Name: "either", Ret: &Type{K: "uint32"}, Body: &Expr{Op: "?:", Args: []*Expr{Bin("==", ID("v0"), item("ONE")), value(Pick(r, []string{"TWO", third})), value(Pick(r, []string{"ONE", "TWO", third}))}}})
				}
				if t.enums {
					d.Fields[d.FieldIndex("v0")].Optional = false
					d.Fields = append(d.Fields, &Field{Name: "extra", Type: ints(), If: Bin("==", ID("v0"), &Expr{Op: "item", TP: d.Tmpl[0], Text: Pick(r, []string{"ONE", "TWO"})})})
					d.Funcs = append(d.Funcs, &Func{Name: "isTwo", Ret: &Type{K: "bool"}, Body: Bin("==", ID("v0"), &Expr{Op: "item", TP: d.Tmpl[0], Text: "TWO"})})
				}
			}
			if d.Kind == "choice" {
				d.Params = []*Param{{Name: "p", Type: &Type{K: "uint8"}}}
				d.Sel = ID("p")
				for k := range d.Fields {
					d.Cases = append(d.Cases, &Case{Conds: []*Expr{Lit(int64(k + 1))}, Field: k})
				}
			}
			if t.enums {
				d.Funcs = append(d.Funcs, &Func{Name: "three", Ret: &Type{K: "uint32"}, Body: &Expr{Op: "valueof", Args: []*Expr{{Op: "item", TP: d.Tmpl[0], Text: third}}}})
			}
			if add(p, d) != nil {
				templs = append(templs, t)
			}
		}
	}
	if len(enums) > 0 && r.P(.4) { // a template that selects by its argument
		p := at[Pick(r, enums).Pkg]
		q := r.In(p, 2)
		body := &Decl{Kind: "choice", Name: "Ch", Tmpl: []string{Pick(r, []string{"T", "E"})}}
		e := body.Tmpl[0]
		body.Params = []*Param{{Name: "p", Type: tp(e)}}
		body.Sel = ID("p")
		for k, it := range []string{"ONE", "TWO", third} {
			body.Fields = append(body.Fields, &Field{Name: fmt.Sprintf("c%d", k), Type: ints()})
			x := &Expr{Op: "item", TP: e, Text: it}
			if k == 2 && r.P(.5) {
				body.HasDef, body.Def = true, k
			} else {
				body.Cases = append(body.Cases, &Case{Conds: []*Expr{x}, Field: k})
			}
		}
		body.Funcs = append(body.Funcs, &Func{Name: "isTwo", Ret: &Type{K: "bool"}, Body: Bin("==", ID("p"), &Expr{Op: "item", TP: e, Text: "TWO"})})
		sel := &Decl{Kind: "struct", Name: "Sel", Tmpl: []string{"T"}}
		if add(p, body) != nil {
			x := ref(body, tp("T"))
			x.Args = []*Expr{ID("sel")}
			sel.Fields = []*Field{{Name: "sel", Type: tp("T")}, {Name: "body", Type: x}}
			if add(q, sel) != nil {
				templs = append(templs, &templ{sel, true})
			}
		}
	}
	if len(templs) == 0 {
		return nil
	}

	var instance func(depth, p int) *Type
	arg := func(depth, p int) *Type {
		switch {
		case depth < 2 && r.P(.15):
			for k := 0; k < 8; k++ {
				if x := instance(depth+1, p); x != nil && len(x.Args) == 0 {
					return x
				}
			}
		case len(upto(args, p)) > 0 && r.P(.65):
			return ref(Pick(r, upto(args, p)))
		}
		return ints()
	}
	instance = func(depth, p int) *Type {
		var fit []*templ
		for _, t := range templs {
			if at[t.d.Pkg] <= p && (!t.enums || len(upto(enums, p)) > 0) {
				fit = append(fit, t)
			}
		}
		if len(fit) == 0 {
			return nil
		}
		t := Pick(r, fit)
		var l []*Type
		for k := range t.d.Tmpl {
			if k == 0 && t.enums {
				l = append(l, ref(Pick(r, upto(enums, p))))
			} else {
				l = append(l, arg(depth, p))
			}
		}
		x := ref(t.d, l...)
		if t.d.Kind == "choice" {
			x.Args = []*Expr{Lit(int64(r.In(1, len(t.d.Fields))))}
		}
		return x
	}
	// as generated for an instance
	name := func(t *Type) string {
		var rec func(t *Type) string
		rec = func(t *Type) string {
			if t.K != "ref" {
				x := strings.ToUpper(t.K[:1]) + t.K[1:]
				if t.Bits > 0 {
					x += fmt.Sprint(t.Bits)
				}
				return x
			}
			_, n := P(t.Ref)
			for _, a := range t.Targs {
				n += rec(a)
			}
			return n
		}
		return rec(t)
	}

	// Who uses them.
	for i := r.In(2, 4); i > 0; i-- {
		p := Pick(r, []int{0, 1, 1, 2, 2, 2})
		d := &Decl{Kind: "struct", Name: fmt.Sprintf("Root%d", i), Fields: []*Field{{Name: "f0", Type: ints()}}}
		for k := r.In(2, 7); k > 0; k-- {
			t := instance(0, p)
			if t == nil {
				break
			}
			f := &Field{Name: fmt.Sprintf("f%d", len(d.Fields)), Type: t, Optional: r.P(.1)}
			if r.P(.15) && len(t.Args) == 0 {
				f.Array, f.MaxLen = AutoArray, 3
			}
			d.Fields = append(d.Fields, f)
			plain := *t
			plain.Args = nil
			switch {
			case r.P(.12): // an instance with the name that this one would get
				x := Pick(r, []*Type{&plain, &plain, instance(0, p)})
				y := *x
				y.Args = nil
				n := name(&plain)
				if r.P(.2) {
					n = strings.ToLower(n[:1]) + n[1:]
				}
				add(p, &Decl{Kind: "instantiate", Name: n, Type: &y})
			case r.P(.15): // another type with that name
				n := name(&plain)
				if r.P(.3) {
					n = strings.ToLower(n[:1]) + n[1:]
				}
				if r.P(.2) {
					n += "_2"
				}
				if e := add(p, Simple(Pick(r, []string{"struct", "enum", "subtype", "union", "const"}), pk[p], n)); e != nil && e.Kind == "struct" && r.P(.7) {
					d.Fields = append(d.Fields, &Field{Name: fmt.Sprintf("f%d", len(d.Fields)), Type: ref(e)})
				}
			case r.P(.1):
				x := *instance(0, p)
				y := x
				y.Args = nil
				e := add(p, &Decl{Kind: "instantiate", Name: fmt.Sprintf("Inst%d", len(s.Pkgs[p].Decls)), Type: &y})
				if e != nil {
					z := ref(e)
					z.Args = x.Args
					d.Fields = append(d.Fields, &Field{Name: fmt.Sprintf("f%d", len(d.Fields)), Type: z})
				}
			}
		}
		if r.P(.3) {
			Shuffle(r, d.Fields)
		}
		if add(p, d) != nil {
			s.Roots = append(s.Roots, d.Ref())
		}
	}
	for _, p := range s.Pkgs {
		if r.P(.5) {
			Shuffle(r, p.Decls)
		}
	}
	wild := func() bool { return true }
	s.FixImports(wild, wild)
	if s.cyclic() {
		return nil
	}
	return s
}

// cyclic tells whether packages import each other.
func (s *Schema) cyclic() bool {
	state := map[string]int{}
	var visit func(n string) bool
	visit = func(n string) bool {
		if state[n] != 0 {
			return state[n] == 1
		}
		state[n] = 1
		for _, p := range s.Pkgs {
			if p.Name != n {
				continue
			}
			for _, i := range p.Imports {
				if visit(i[:strings.LastIndexByte(i, '.')]) {
					return true
				}
			}
		}
		state[n] = 2
		return false
	}
	for _, p := range s.Pkgs {
		if visit(p.Name) {
			return true
		}
	}
	return false
}
