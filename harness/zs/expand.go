package zs

import "fmt"

// HasParams tells whether parameterised compounds occur below an instance.
func (in *Inst) HasParams(w *World) bool {
	seen := map[*Inst]bool{}
	var rec func(in *Inst) bool
	rec = func(in *Inst) bool {
		if seen[in] {
			return false
		}
		seen[in] = true
		if len(in.D.Params) > 0 {
			return true
		}
		for i := range in.D.Fields {
			if rt := w.F(in, i); rt.K == "comp" && rec(rt.In) {
				return true
			}
		}
		return false
	}
	return rec(in)
}

// HasTemplates tells whether template instances occur below an instance.
func (in *Inst) HasTemplates(w *World) bool {
	seen := map[*Inst]bool{}
	var rec func(in *Inst) bool
	rec = func(in *Inst) bool {
		if seen[in] {
			return false
		}
		seen[in] = true
		if len(in.Targs) > 0 {
			return true
		}
		for i := range in.D.Fields {
			if rt := w.F(in, i); rt.K == "comp" && rec(rt.In) {
				return true
			}
		}
		return false
	}
	return rec(in)
}

// types visits the types of the parts of a compound.
func (d *Decl) types(fn func(t *Type)) {
	for _, f := range d.Fields {
		fn(f.Type)
	}
	for _, p := range d.Params {
		fn(p.Type)
	}
	for _, f := range d.Funcs {
		fn(f.Ret)
	}
}

// ambiguous tells whether the name is declared in several packages.
func (s *Schema) ambiguous(ref string) bool {
	_, name := P(ref)
	n := 0
	for _, p := range s.Pkgs {
		for _, d := range p.Decls {
			if d.Name == name {
				n++
			}
		}
	}
	return n > 1
}

// Expand replaces every template instance by a type written out by hand.
func (s *Schema) Expand() *Schema {
	c := s.Clone()
	w := NewWorld(s)
	made := map[string]string{}
	n := 0
	pkg := func(name string) *Pkg {
		for _, p := range c.Pkgs {
			if p.Name == name {
				return p
			}
		}
		panic("package " + name)
	}
	clone := func(d *Decl) *Decl {
		t := &Schema{Pkgs: []*Pkg{{Name: d.Pkg, Decls: []*Decl{d}}}}
		return t.Clone().Pkgs[0].Decls[0]
	}
	// item is how the items of an enum or bitmask are called in a package. Its
	// name may mean something else there.
	aliases := map[string]*Decl{}
	item := func(t *Type, in string) string {
		if !t.Qual {
			return t.Ref
		}
		k := in + "/" + t.Ref
		if aliases[k] == nil {
			a := &Decl{Kind: "subtype", Name: fmt.Sprintf("ItemsOf%d", len(aliases)), Pkg: in, Type: &Type{K: "ref", Ref: t.Ref, Qual: true}}
			aliases[k] = a
			pkg(in).Decls = append(pkg(in).Decls, a)
		}
		return aliases[k].Ref()
	}
	var fix func(t *Type, in string)
	// instance writes out t (a reference with arguments) in package in.
	instance := func(t *Type, in, name string) string {
		d := clone(s.Find(t.Ref))
		bind := map[string]*Type{}
		for i, p := range d.Tmpl {
			bind[p] = t.Targs[i]
		}
		d.Tmpl = nil
		d.Name = name
		d.Pkg = in
		d.Walk(func(e *Expr) {
			if e.Op == "const" && s.ambiguous(e.Ref) {
				*e = *Lit(w.Eval(&Env{W: w}, e).N.Int64())
				return
			}
			if e.TP != "" {
				e.Ref = item(bind[e.TP], in)
				e.TP = ""
			}
		}, nil)
		var sub func(t *Type)
		sub = func(t *Type) {
			if t == nil {
				return
			}
			if t.K == "tparam" {
				a := t.Args
				*t = *bind[t.TP]
				if len(a) > 0 {
					t.Args = a
				}
				return
			}
			for _, x := range t.Targs {
				sub(x)
			}
		}
		d.types(sub)
		d.types(func(t *Type) { fix(t, in) })
		p := pkg(in)
		p.Decls = append(p.Decls, d)
		return d.Ref()
	}
	fix = func(t *Type, in string) {
		if t == nil || len(t.Targs) == 0 {
			return
		}
		for _, a := range t.Targs {
			fix(a, in)
		}
		key := in + "/" + typeKey(t)
		if made[key] == "" {
			n++
			made[key] = in + ":" + fmt.Sprintf("Expanded%d", n)
			instance(t, in, fmt.Sprintf("Expanded%d", n))
		}
		t.Ref, t.Targs = made[key], nil
	}
	for _, p := range c.Pkgs {
		decls := p.Decls
		p.Decls = nil
		for _, d := range decls {
			switch {
			case len(d.Tmpl) > 0:
				continue
			case d.Kind == "instantiate":
				t := *d.Type
				for _, a := range t.Targs {
					fix(a, p.Name)
				}
				instance(&t, p.Name, d.Name)
				continue
			}
			d.types(func(t *Type) { fix(t, p.Name) })
			if d.Kind == "subtype" {
				fix(d.Type, p.Name)
			}
			p.Decls = append(p.Decls, d)
		}
	}
	c.FixImports(func() bool { return true }, func() bool { return false })
	return c
}

// HasExprs tells whether expressions control the layout below an instance.
func (in *Inst) HasExprs(w *World) bool {
	seen := map[*Inst]bool{}
	var rec func(in *Inst) bool
	rec = func(in *Inst) bool {
		if seen[in] {
			return false
		}
		seen[in] = true
		for i, f := range in.D.Fields {
			if f.If != nil || f.Len != nil || f.Type.Len != nil || len(f.Type.Args) > 0 {
				return true
			}
			if rt := w.F(in, i); rt.K == "comp" && rec(rt.In) {
				return true
			}
		}
		return false
	}
	return rec(in)
}
