package zs

import (
	"fmt"
	"sort"
)

// Invalid is a schema that the compiler must refuse.
type Invalid struct {
	Schema *Schema
	Kind   string
	What   string
	// Keep is the declaration that is wrong whatever else is declared; "" if
	// the defect depends on other declarations.
	Keep string
}

// mutation context.
type inv struct {
	r     *Rng
	s     *Schema
	names map[string]int // how often a name is declared as a declaration
	items map[string]bool
	fresh string
	live  []*Decl
	all   []*Decl
	out   *Invalid
}

// Invalidate makes a schema that is wrong by one change; nil if the kind of
// change does not apply.
func Invalidate(r *Rng, s *Schema, kind string) *Invalid {
	c := s.Clone()
	m := &inv{r: r, s: c, names: map[string]int{}, items: map[string]bool{}, out: &Invalid{Schema: c, Kind: kind}}
	m.fresh = Pick(r, []string{"zzUnknown", "ZzUnknown", "ZZ_UNKNOWN", "zz_9"}) + fmt.Sprint(r.N(100))
	inst := map[string]bool{}
	for _, p := range c.Pkgs {
		for _, d := range p.Decls {
			m.names[d.Name]++
			m.all = append(m.all, d)
			for _, it := range d.Items {
				m.items[it.Name] = true
			}
			if len(d.Tmpl) == 0 {
				m.live = append(m.live, d)
				d.Walk(nil, func(t *Type) {
					if len(t.Targs) > 0 {
						inst[t.Ref] = true
					}
				})
			}
		}
	}
	for _, d := range m.all {
		if len(d.Tmpl) > 0 && inst[d.Ref()] {
			m.live = append(m.live, d)
		}
	}
	if fn := invalidKinds[kind]; fn == nil || !fn(m) {
		return nil
	}
	return m.out
}

// InvalidKinds lists the kinds of changes.
func InvalidKinds() []string {
	var k []string
	for n := range invalidKinds {
		k = append(k, n)
	}
	sort.Strings(k)
	return k
}

func (m *inv) done(d *Decl, f string, a ...any) bool {
	m.out.What = fmt.Sprintf(f, a...)
	if d != nil {
		m.out.Keep = d.Ref()
		m.out.What += " in " + d.Kind + " " + d.Ref()
	}
	return true
}

// pick shuffles declarations that match.
func (m *inv) pick(from []*Decl, ok func(d *Decl) bool) *Decl {
	var l []*Decl
	for _, d := range from {
		if ok(d) {
			l = append(l, d)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return Pick(m.r, l)
}

func compound(d *Decl) bool { return d.Kind == "struct" || d.Kind == "choice" || d.Kind == "union" }

// plain tells whether a name means nothing but what the compound declares.
func (m *inv) plain(name string) bool { return m.names[name] == 0 && !m.items[name] }

func (m *inv) pkg(d *Decl) *Pkg {
	for _, p := range m.s.Pkgs {
		if p.Name == d.Pkg {
			return p
		}
	}
	panic("package")
}

// declare adds a declaration to a package.
func (m *inv) declare(p *Pkg, d *Decl) {
	d.Pkg = p.Name
	i := m.r.N(len(p.Decls) + 1)
	p.Decls = append(p.Decls[:i:i], append([]*Decl{d}, p.Decls[i:]...)...)
}

var invalidKinds = map[string]func(m *inv) bool{
	"unknown-type": func(m *inv) bool {
		var ts []*Type
		d := m.pick(m.live, func(d *Decl) bool {
			n := 0
			d.Walk(nil, func(*Type) { n++ })
			return n > 0
		})
		if d == nil {
			return false
		}
		d.Walk(nil, func(t *Type) { ts = append(ts, t) })
		t := Pick(m.r, ts)
		old := t.String()
		pk := d.Pkg
		qual := m.r.P(.25)
		if qual && m.r.P(.5) {
			pk = Pick(m.r, m.s.Pkgs).Name
		}
		targs := t.Targs
		if m.r.P(.5) {
			targs = nil
		}
		*t = Type{K: "ref", Ref: pk + ":" + m.fresh, Qual: qual, Targs: targs}
		return m.done(d, "unknown type %s instead of %s", t, old)
	},
	"unknown-symbol": func(m *inv) bool {
		var es []*Expr
		leaf := func(e *Expr) bool {
			switch e.Op {
			case "id", "const", "item", "bareitem", "int", "bool", "str", "float", "dot", "call":
				return true
			}
			return false
		}
		d := m.pick(m.live, func(d *Decl) bool {
			n := 0
			d.Walk(func(e *Expr) {
				if leaf(e) {
					n++
				}
			}, nil)
			return n > 0
		})
		if d == nil {
			return false
		}
		d.Walk(func(e *Expr) {
			if leaf(e) {
				es = append(es, e)
			}
		}, nil)
		e := Pick(m.r, es)
		old := e.String()
		switch {
		case (e.Op == "item" || e.Op == "dot" || e.Op == "call") && m.r.P(.7):
			e.Text = m.fresh
		case m.r.P(.1):
			*e = Expr{Op: "call", Text: m.fresh}
		default:
			*e = *ID(m.fresh)
		}
		return m.done(d, "unknown symbol %s instead of %s", e, old)
	},
	"unknown-import": func(m *inv) bool {
		p := Pick(m.r, m.s.Pkgs)
		var im string
		switch m.r.N(4) {
		case 0:
			im = "zz." + m.fresh + ".*"
		case 1:
			im = "zz" + p.Name + "." + Pick(m.r, m.all).Name
		case 2:
			im = p.Name + "." + m.fresh + ".*"
		default:
			q := Pick(m.r, m.s.Pkgs)
			if q == p {
				im = "zz.*"
			} else {
				im = q.Name + "." + m.fresh
			}
		}
		i := m.r.N(len(p.Imports) + 1)
		p.Imports = append(p.Imports[:i:i], append([]string{im}, p.Imports[i:]...)...)
		m.done(nil, "unknown import %s in package %s", im, p.Name)
		m.out.Keep = p.Decls[0].Ref()
		return true
	},
	"missing-import": func(m *inv) bool {
		type cand struct {
			p *Pkg
			i int
		}
		var cs []cand
		for _, p := range m.s.Pkgs {
			for i, im := range p.Imports {
				// Is anything unqualified in live declarations only visible by it?
				need := false
				check := func(ref string, qual bool) {
					q, n := P(ref)
					if qual || q == p.Name || m.names[n] != 1 {
						return
					}
					if im != q+".*" && im != ref[:len(q)]+"."+n {
						return
					}
					for k, o := range p.Imports {
						if k != i && (o == q+".*" || o == q+"."+n) {
							return
						}
					}
					need = true
				}
				for _, d := range m.live {
					if d.Pkg != p.Name {
						continue
					}
					d.Walk(func(e *Expr) {
						if e.Ref != "" && e.TP == "" && (e.Op == "const" || e.Op == "item") {
							check(e.Ref, e.Qual)
						}
					}, func(t *Type) {
						if t.Ref != "" && t.K == "ref" {
							check(t.Ref, t.Qual)
						}
					})
				}
				if need {
					cs = append(cs, cand{p, i})
				}
			}
		}
		if len(cs) == 0 {
			return false
		}
		c := Pick(m.r, cs)
		im := c.p.Imports[c.i]
		c.p.Imports = append(c.p.Imports[:c.i:c.i], c.p.Imports[c.i+1:]...)
		return m.done(nil, "missing import %s in package %s", im, c.p.Name)
	},
	"missing-declaration": func(m *inv) bool {
		used := map[string]bool{}
		for _, d := range m.live {
			d.Walk(func(e *Expr) {
				if e.Ref != "" && e.TP == "" && e.Ref != d.Ref() && (e.Op == "const" || e.Op == "item") {
					used[e.Ref] = true
				}
			}, func(t *Type) {
				if t.K == "ref" && t.Ref != d.Ref() {
					used[t.Ref] = true
				}
			})
		}
		d := m.pick(m.all, func(d *Decl) bool { return used[d.Ref()] && m.names[d.Name] == 1 && !m.items[d.Name] })
		if d == nil {
			return false
		}
		p := m.pkg(d)
		for i := range p.Decls {
			if p.Decls[i] == d {
				p.Decls = append(p.Decls[:i:i], p.Decls[i+1:]...)
				break
			}
		}
		return m.done(nil, "the declaration of %s is missing", d.Ref())
	},
	"renamed-field": func(m *inv) bool {
		d := m.pick(m.live, func(d *Decl) bool {
			ok := false
			d.Walk(func(e *Expr) { ok = ok || e.Op == "id" && m.plain(e.Text) }, nil)
			return ok && compound(d)
		})
		if d == nil {
			return false
		}
		var es []string
		d.Walk(func(e *Expr) {
			if e.Op == "id" && m.plain(e.Text) {
				es = append(es, e.Text)
			}
		}, nil)
		n := Pick(m.r, es)
		for _, f := range d.Fields {
			if f.Name == n {
				f.Name = m.fresh
			}
		}
		for _, f := range d.Params {
			if f.Name == n {
				f.Name = m.fresh
			}
		}
		return m.done(d, "%s is now called %s, but not where it is used,", n, m.fresh)
	},
	"duplicate-declaration": func(m *inv) bool {
		d := Pick(m.r, m.all)
		k := Pick(m.r, []string{"const", "subtype", "enum", "bitmask", "struct", "union", "choice", d.Kind})
		if k == "instantiate" {
			k = "struct"
		}
		m.declare(m.pkg(d), Simple(k, d.Pkg, d.Name))
		return m.done(d, "second declaration (%s) of the same name", k)
	},
	"duplicate-member": func(m *inv) bool {
		d := m.pick(m.all, func(d *Decl) bool { return compound(d) && len(d.Fields) > 0 })
		if d == nil {
			return false
		}
		var ns []string
		for _, f := range d.Fields {
			ns = append(ns, f.Name)
		}
		for _, f := range d.Params {
			ns = append(ns, f.Name)
		}
		for _, f := range d.Funcs {
			ns = append(ns, f.Name)
		}
		n := Pick(m.r, ns)
		switch k := m.r.N(3); {
		case k == 0 && d.Kind != "choice":
			d.Fields = append(d.Fields, &Field{Name: n, Type: &Type{K: "uint8"}})
			return m.done(d, "second member %s (a field)", n)
		case k == 1 && len(d.Params) > 0:
			d.Params = append(d.Params, &Param{Name: n, Type: &Type{K: "uint8"}})
			return m.done(d, "second member %s (a parameter)", n)
		case d.Kind == "choice" && k < 2:
			d.Fields = append(d.Fields, &Field{Name: n, Type: &Type{K: "uint8"}})
			used := false
			for i, f := range d.Fields[:len(d.Fields)-1] {
				for _, cs := range d.Cases {
					used = used || f.Name == n && cs.Field == i
				}
				used = used || f.Name == n && d.HasDef && d.Def == i
			}
			for _, f := range d.Params {
				used = used || f.Name == n
			}
			for _, f := range d.Funcs {
				used = used || f.Name == n
			}
			if !used {
				return false
			}
			for _, cs := range d.Cases {
				if cs.Field < 0 {
					cs.Field = len(d.Fields) - 1
					return m.done(d, "second member %s (a case)", n)
				}
			}
			if d.HasDef && d.Def < 0 || !d.HasDef {
				d.HasDef, d.Def = true, len(d.Fields)-1
				return m.done(d, "second member %s (the default)", n)
			}
			return false
		}
		d.Funcs = append(d.Funcs, &Func{Name: n, Ret: &Type{K: "uint8"}, Body: Lit(1)})
		return m.done(d, "second member %s (a function)", n)
	},
	"duplicate-item": func(m *inv) bool {
		d := m.pick(m.all, func(d *Decl) bool { return len(d.Items) > 0 })
		if d == nil {
			return false
		}
		n := Pick(m.r, d.Items).Name
		it := &Item{Name: n}
		if m.r.P(.5) {
			it.Value = Lit(int64(64))
		}
		i := m.r.N(len(d.Items) + 1)
		d.Items = append(d.Items[:i:i], append([]*Item{it}, d.Items[i:]...)...)
		return m.done(d, "second item %s", n)
	},
	"duplicate-template-parameter": func(m *inv) bool {
		d := m.pick(m.all, func(d *Decl) bool { return len(d.Tmpl) > 0 })
		if d == nil {
			return false
		}
		// the uses get as many arguments
		n := Pick(m.r, d.Tmpl)
		d.Tmpl = append(d.Tmpl, n)
		for _, o := range m.all {
			o.Walk(nil, func(t *Type) {
				if t.Ref == d.Ref() && len(t.Targs) > 0 {
					t.Targs = append(t.Targs, t.Targs[0])
				}
			})
		}
		return m.done(d, "second template parameter %s", n)
	},
	"duplicate-package": func(m *inv) bool {
		p := Pick(m.r, m.s.Pkgs)
		q := &Pkg{Name: p.Name, File: fmt.Sprintf("dup%d.zs", m.r.N(100))}
		m.declare(q, Simple("struct", "", "Zz"+m.fresh))
		m.s.Pkgs = append(m.s.Pkgs, q)
		m.done(nil, "second file of package %s", p.Name)
		m.out.Keep = q.Decls[0].Ref()
		return true
	},
	"variable-default": func(m *inv) bool {
		n, d := m.variable(func(d *Decl) bool {
			if d.Kind != "struct" {
				return false
			}
			for _, f := range d.Fields {
				if f.Array == NoArray && f.Type.K == "uint8" {
					return true
				}
			}
			return false
		})
		if d == nil {
			return false
		}
		for _, f := range d.Fields {
			if f.Array == NoArray && f.Type.K == "uint8" && f.Name != n.Text {
				f.Default = m.wrap(n)
				return m.done(d, "default value %s of %s", f.Default, f.Name)
			}
		}
		return false
	},
	"variable-case": func(m *inv) bool {
		n, d := m.variable(func(d *Decl) bool { return d.Kind == "choice" && len(d.Cases) > 0 })
		if d == nil {
			return false
		}
		c := Pick(m.r, d.Cases)
		i := m.r.N(len(c.Conds))
		c.Conds[i] = m.wrap(n)
		return m.done(d, "case label %s", c.Conds[i])
	},
	"variable-constant": func(m *inv) bool {
		n, src := m.variable(func(d *Decl) bool { return true })
		if src == nil {
			return false
		}
		d := m.pick(m.live, func(d *Decl) bool { return d.Kind == "const" && d.Pkg == src.Pkg })
		if d == nil {
			return false
		}
		d.Value = m.wrap(n)
		return m.done(d, "constant value %s", d.Value)
	},
	"variable-item": func(m *inv) bool {
		n, src := m.variable(func(d *Decl) bool { return true })
		if src == nil {
			return false
		}
		d := m.pick(m.live, func(d *Decl) bool { return len(d.Items) > 0 && d.Pkg == src.Pkg })
		if d == nil {
			return false
		}
		it := Pick(m.r, d.Items)
		it.Value = m.wrap(n)
		return m.done(d, "item value %s", it.Value)
	},
	"cyclic-constant": func(m *inv) bool {
		a := m.pick(m.live, func(d *Decl) bool { return d.Kind == "const" })
		if a == nil {
			return false
		}
		cr := func(d *Decl) *Expr { return &Expr{Op: "const", Ref: d.Ref()} }
		if m.r.P(.3) {
			a.Value = m.wrap(cr(a))
			return m.done(a, "a value of itself")
		}
		b := Simple("const", "", "Zz"+m.fresh)
		m.declare(m.pkg(a), b)
		b.Value = m.wrap(cr(a))
		a.Value = m.wrap(cr(b))
		return m.done(nil, "constants %s and %s refer to each other", a.Ref(), b.Ref())
	},
	"type-arguments": func(m *inv) bool {
		var ts []*Type
		in := map[*Type]*Decl{}
		for _, d := range m.live {
			if !compound(d) {
				continue
			}
			for _, f := range d.Fields {
				if f.Type != nil && f.Type.K != "tparam" && f.Type.Len == nil {
					for n := 1 + 7*len(f.Type.Args); n > 0; n -= 7 { // rather those with arguments
						ts = append(ts, f.Type)
					}
					in[f.Type] = d
				}
			}
		}
		if len(ts) == 0 {
			return false
		}
		t := Pick(m.r, ts)
		old := t.String()
		switch n := len(t.Args); {
		case n > 0 && m.r.P(.3):
			t.Args = nil
		case n > 0 && m.r.P(.6):
			k := m.r.N(n)
			t.Args = append(append([]*Expr{}, t.Args[:k]...), t.Args[k+1:]...)
		default:
			t.Args = append(t.Args[:n:n], Lit(1))
		}
		return m.done(in[t], "wrong number of type arguments: %s instead of %s", t, old)
	},
	"template-arguments": func(m *inv) bool {
		has := func(d *Decl) bool {
			ok := false
			d.Walk(nil, func(t *Type) { ok = ok || len(t.Targs) > 0 })
			return ok
		}
		d := m.pick(m.live, has)
		if d == nil {
			return false
		}
		var ts []*Type
		d.Walk(nil, func(t *Type) {
			if len(t.Targs) > 0 {
				ts = append(ts, t)
			}
		})
		t := Pick(m.r, ts)
		old := t.String()
		if len(t.Targs) > 1 && m.r.P(.5) {
			t.Targs = t.Targs[:len(t.Targs)-1]
		} else {
			t.Targs = append(t.Targs, &Type{K: "uint8"})
		}
		return m.done(d, "wrong number of template arguments: %s instead of %s", t, old)
	},
}

// variable picks a field, parameter or function of a compound.
func (m *inv) variable(ok func(d *Decl) bool) (*Expr, *Decl) {
	names := func(d *Decl) (es []*Expr) {
		for _, f := range d.Fields {
			if m.plain(f.Name) {
				es = append(es, ID(f.Name))
			}
		}
		for _, f := range d.Params {
			if m.plain(f.Name) {
				es = append(es, ID(f.Name))
			}
		}
		for _, f := range d.Funcs {
			if m.plain(f.Name) {
				es = append(es, &Expr{Op: "call", Text: f.Name})
			}
		}
		return es
	}
	d := m.pick(m.live, func(d *Decl) bool { return compound(d) && ok(d) && len(names(d)) > 0 })
	if d == nil {
		return nil, nil
	}
	return Pick(m.r, names(d)), d
}

// wrap puts an expression into a bigger one.
func (m *inv) wrap(e *Expr) *Expr {
	switch m.r.N(5) {
	case 0:
		return Bin("+", e, Lit(1))
	case 1:
		return Bin("*", Lit(2), e)
	case 2:
		return &Expr{Op: "paren", Args: []*Expr{e}}
	}
	return e
}
