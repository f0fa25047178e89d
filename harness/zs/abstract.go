package zs

import "strings"

// place is a type in a compound that can become a template parameter.
type place struct {
	t     *Type
	f     *Field
	param *Param
	fn    *Func
}

// group is what one template parameter stands for.
type group struct {
	rt     *RT
	orig   *Type
	places []place
}

// abstract turns a compound into a template: some of its types become
// parameters. The first argument list gives the compound as it was, the
// others replace types by such that fit the expressions.
func (g *gen) abstract(d *Decl) {
	var order []string
	groups := map[string]*group{}
	add := func(p place) {
		if p.t.Len != nil || len(p.t.Targs) > 0 || p.t.K == "tparam" || p.t.Ref == d.Ref() {
			return
		}
		rt := g.w.Resolve(nil, p.t)
		bare := *p.t
		bare.Args = nil
		k := typeKey(&bare)
		if rt.D != nil {
			k = rt.D.Ref()
			bare = *g.ref(rt.D)
		}
		if groups[k] == nil {
			groups[k] = &group{rt: rt, orig: &bare}
			order = append(order, k)
		}
		groups[k].places = append(groups[k].places, p)
	}
	self := false
	for _, f := range d.Fields {
		if f.Type.K == "ref" && f.Type.Ref == d.Ref() {
			self = true
			continue
		}
		add(place{t: f.Type, f: f})
	}
	for _, p := range d.Params {
		add(place{t: p.Type, param: p})
	}
	rich := false
	for _, f := range d.Funcs {
		add(place{t: f.Ret, fn: f})
		rich = rich || strings.HasPrefix(f.Name, "rich")
	}
	if len(order) == 0 {
		return
	}
	// what expressions use, and how
	ids, passed, dots := map[string]bool{}, map[string]bool{}, false
	d.Walk(func(e *Expr) {
		switch e.Op {
		case "id", "call":
			ids[e.Text] = true
		case "dot":
			dots = true
		}
		if e.Op == "call" && len(e.Args) > 0 {
			dots = true
		}
	}, func(t *Type) {
		for _, a := range t.Args {
			if a.Op == "id" {
				passed[a.Text] = true
			}
		}
	})
	Shuffle(g.r, order)
	if n := g.r.In(1, 2); len(order) > n {
		order = order[:n]
	}
	names := []string{"T", "U"}
	if g.r.P(.3) {
		names = Pick(g.r, [][]string{{"KEY", "VAL"}, {"TYPE_A", "TYPE_B"}, {"U", "T"}, {"Elem", "Sel"}})
	}
	var choices [][]*Type
	for i, k := range order {
		gr := groups[k]
		named := gr.rt.K == "enum" || gr.rt.K == "mask"
		if !named && g.r.P(.4) { // some of them
			Shuffle(g.r, gr.places)
			gr.places = gr.places[:g.r.In(1, len(gr.places))]
		}
		tied, fixed, args := false, false, false
		for _, p := range gr.places {
			name := ""
			switch {
			case p.f != nil:
				name = p.f.Name
				if p.f.Default != nil {
					tied = true
					if p.f.Default.Op != "int" {
						fixed = true
					}
				}
				if p.f.Lo != nil && gr.rt.K != "u" && gr.rt.K != "i" && gr.rt.K != "vu" && gr.rt.K != "vi" {
					fixed = true
				}
			case p.param != nil:
				name, tied = p.param.Name, true
			case p.fn != nil:
				name, fixed = p.fn.Name, true
			}
			tied = tied || ids[name]
			fixed = fixed || passed[name] && (named || gr.rt.K == "bool" || gr.rt.K == "comp")
			args = args || len(p.t.Args) > 0
			a := p.t.Args
			*p.t = Type{K: "tparam", TP: names[i], Args: a}
		}
		list := []*Type{gr.orig}
		switch {
		case args:
		case named:
			if fixed || dots || rich {
				// other types may not be comparable
			} else {
				for n := g.r.N(3); n > 0; n-- {
					list = append(list, g.ref(g.twin(gr.rt.D)))
				}
			}
			d.Walk(func(e *Expr) {
				if e.Op == "item" && e.Ref == gr.rt.D.Ref() && (len(list) > 1 || g.r.P(.5)) {
					e.Ref, e.TP, e.Qual = "", names[i], false
				}
			}, nil)
		case !tied && !fixed:
			for n := g.r.N(3); n > 0; n-- {
				list = append(list, g.targ())
			}
		case !fixed && !rich && (gr.rt.K == "u" || gr.rt.K == "i" || gr.rt.K == "vu" || gr.rt.K == "vi"):
			for n := g.r.N(3); n > 0; n-- {
				t := g.intType()
				if t.Bits > 0 && t.Bits < 5 {
					t.Bits = 5
				}
				list = append(list, t)
			}
		}
		d.Tmpl = append(d.Tmpl, names[i])
		choices = append(choices, list)
	}
	if self {
		for _, f := range d.Fields {
			if f.Type.K == "ref" && f.Type.Ref == d.Ref() {
				for _, n := range d.Tmpl {
					f.Type.Targs = append(f.Type.Targs, &Type{K: "tparam", TP: n})
				}
			}
		}
	}
	if g.targs == nil {
		g.targs = map[*Decl][][]*Type{}
	}
	for n := 0; n < 3; n++ {
		var l []*Type
		for _, c := range choices {
			if n == 0 {
				l = append(l, c[0])
			} else {
				l = append(l, Pick(g.r, c))
			}
		}
		g.targs[d] = append(g.targs[d], l)
	}
}

// twin is another enum or bitmask with the same names.
func (g *gen) twin(d *Decl) *Decl {
	t := &Decl{Kind: d.Kind, Name: g.typeName(), Type: g.pickType([]*Type{{K: "uint8"}, {K: "uint16"}, {K: "uint32"}, {K: "bit", Bits: g.r.In(8, 20)}, {K: "varuint16"}})}
	var names []string
	for _, i := range d.Items {
		names = append(names, i.Name)
	}
	Shuffle(g.r, names)
	for i, n := range names {
		it := &Item{Name: n}
		if d.Kind == "bitmask" || g.r.P(.4) {
			it.Value = Lit(1 << i)
		}
		t.Items = append(t.Items, it)
	}
	g.add(t)
	return t
}

// inst is a template with arguments, or any other type.
func (g *gen) inst(d *Decl) *Type {
	t := g.ref(d)
	if l := g.targs[d]; len(l) > 0 {
		t.Targs = Pick(g.r, l)
	}
	return t
}
