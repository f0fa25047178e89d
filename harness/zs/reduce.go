package zs

import (
	"encoding/json"
	"strings"
)

// Slice keeps what a root needs.
func (s *Schema) Slice(root string) *Schema {
	c := s.Clone()
	c.Roots = []string{root}
	need := map[string]bool{}
	var rec func(ref string)
	rec = func(ref string) {
		if need[ref] {
			return
		}
		need[ref] = true
		if d := c.Find(ref); d != nil {
			for _, u := range d.Uses() {
				rec(u)
			}
		}
	}
	rec(root)
	var pk []*Pkg
	for _, p := range c.Pkgs {
		var ds []*Decl
		for _, d := range p.Decls {
			if need[d.Ref()] {
				ds = append(ds, d)
			}
		}
		p.Decls = ds
		if len(ds) > 0 {
			pk = append(pk, p)
		}
	}
	c.Pkgs = pk
	c.FixImports(func() bool { return true }, func() bool { return false })
	return c
}

// Merge puts everything into one package.
func (s *Schema) Merge() *Schema {
	if len(s.Pkgs) < 2 {
		return nil
	}
	b, _ := json.Marshal(s)
	t := string(b)
	to := s.Pkgs[0].Name
	for _, p := range s.Pkgs[1:] {
		t = strings.ReplaceAll(t, `"`+p.Name+`:`, `"`+to+`:`)
		t = strings.ReplaceAll(t, `"pkg":"`+p.Name+`"`, `"pkg":"`+to+`"`)
	}
	var c Schema
	if json.Unmarshal([]byte(t), &c) != nil {
		return nil
	}
	for _, p := range c.Pkgs[1:] {
		c.Pkgs[0].Decls = append(c.Pkgs[0].Decls, p.Decls...)
	}
	c.Pkgs = c.Pkgs[:1]
	c.Pkgs[0].Imports = nil
	return &c
}

func (s *Schema) mentions(name string, field bool) bool {
	found := false
	for _, p := range s.Pkgs {
		for _, d := range p.Decls {
			d.Walk(func(e *Expr) {
				if (e.Op == "id" || e.Op == "dot" || e.Op == "call") && e.Text == name {
					found = true
				}
			}, nil)
		}
	}
	return found
}

// Reductions lists simpler schemas.
func (s *Schema) Reductions(root string) []*Schema {
	var out []*Schema
	seen := map[string]bool{s.Text(): true}
	add := func(fn func(c *Schema) bool) {
		c := s.Clone()
		if !fn(c) {
			return
		}
		defer func() { recover() }()
		c = c.Slice(root)
		t := c.Text()
		if !seen[t] {
			seen[t] = true
			out = append(out, c)
		}
	}
	if m := s.Merge(); m != nil {
		p, n := P(root)
		_ = p
		m.Roots = []string{m.Pkgs[0].Name + ":" + n}
		if m.Find(m.Roots[0]) != nil {
			m = m.Slice(m.Roots[0])
			seen[m.Text()] = true
			out = append(out, m)
		}
	}
	for pi, p := range s.Pkgs {
		for di, d := range p.Decls {
			at := func(c *Schema) *Decl { return c.Pkgs[pi].Decls[di] }
			for fi, f := range d.Fields {
				add(func(c *Schema) bool { // drop the field
					x := at(c)
					name := x.Fields[fi].Name
					if len(x.Fields) < 2 && x.Kind != "struct" {
						return false
					}
					x.Fields = append(x.Fields[:fi], x.Fields[fi+1:]...)
					var cs []*Case
					for _, k := range x.Cases {
						if k.Field == fi {
							continue
						}
						if k.Field > fi {
							k.Field--
						}
						cs = append(cs, k)
					}
					if len(x.Cases) > 0 && len(cs) == 0 {
						return false
					}
					x.Cases = cs
					if x.HasDef && x.Def == fi {
						x.HasDef, x.Def = false, 0
					} else if x.HasDef && x.Def > fi {
						x.Def--
					}
					return !c.mentions(name, true)
				})
				if f.Optional {
					add(func(c *Schema) bool { at(c).Fields[fi].Optional = false; return true })
				}
				if f.If != nil {
					add(func(c *Schema) bool { at(c).Fields[fi].If = nil; return true })
				}
				if f.Align != 0 {
					add(func(c *Schema) bool { at(c).Fields[fi].Align = 0; return true })
				}
				if f.Packed {
					add(func(c *Schema) bool { at(c).Fields[fi].Packed = false; return true })
				}
				if f.Default != nil {
					add(func(c *Schema) bool { at(c).Fields[fi].Default = nil; return true })
				}
				if f.Array != NoArray && !s.mentions(f.Name, true) {
					add(func(c *Schema) bool {
						x := at(c).Fields[fi]
						x.Array, x.Len, x.Packed, x.MaxLen = NoArray, nil, false, 0
						return true
					})
				}
				if f.Array == FixedArray {
					add(func(c *Schema) bool {
						x := at(c).Fields[fi]
						x.Array, x.Len = AutoArray, nil
						return true
					})
				}
				if (f.Type.K == "ref" || len(f.Type.K) > 5 && f.Type.K != "uint32") && f.Type.K != "tparam" {
					add(func(c *Schema) bool { at(c).Fields[fi].Type = &Type{K: "uint8"}; return true })
				}
			}
			for ci := range d.Cases {
				if len(d.Cases) > 1 || d.HasDef {
					add(func(c *Schema) bool {
						x := at(c)
						k := x.Cases[ci]
						if k.Field >= 0 {
							return false
						}
						x.Cases = append(x.Cases[:ci], x.Cases[ci+1:]...)
						return true
					})
				}
				if len(d.Cases[ci].Conds) > 1 {
					add(func(c *Schema) bool { x := at(c).Cases[ci]; x.Conds = x.Conds[1:]; return true })
				}
			}
			if d.HasDef && d.Def < 0 {
				add(func(c *Schema) bool { at(c).HasDef, at(c).Def = false, 0; return true })
			}
			for fi, f := range d.Funcs {
				if !s.mentions(f.Name, true) {
					add(func(c *Schema) bool { x := at(c); x.Funcs = append(x.Funcs[:fi], x.Funcs[fi+1:]...); return true })
				}
				_ = f
			}
			if len(d.Items) > 1 {
				for ii := range d.Items {
					add(func(c *Schema) bool {
						x := at(c)
						name := x.Items[ii].Name
						x.Items = append(x.Items[:ii], x.Items[ii+1:]...)
						used := false
						for _, q := range c.Pkgs {
							for _, y := range q.Decls {
								y.Walk(func(e *Expr) {
									if (e.Op == "item" || e.Op == "bareitem") && e.Text == name && e.Ref == x.Ref() {
										used = true
									}
								}, nil)
							}
						}
						return !used
					})
				}
			}
			if d.Value != nil && len(d.Value.Args) > 0 {
				for ai := range d.Value.Args {
					add(func(c *Schema) bool { x := at(c); x.Value = x.Value.Args[ai]; return true })
				}
			}
			for fi, f := range d.Funcs {
				for ai := range f.Body.Args {
					add(func(c *Schema) bool { x := at(c); x.Funcs[fi].Body = x.Funcs[fi].Body.Args[ai]; return true })
				}
			}
			for pi2, pa := range d.Params {
				if !s.mentions(pa.Name, true) && len(d.Params) > 0 && d.Sel == nil {
					add(func(c *Schema) bool {
						x := at(c)
						x.Params = append(x.Params[:pi2], x.Params[pi2+1:]...)
						for _, q := range c.Pkgs {
							for _, y := range q.Decls {
								y.Walk(nil, func(t *Type) {
									if t.Ref == x.Ref() && len(t.Args) > pi2 {
										t.Args = append(t.Args[:pi2], t.Args[pi2+1:]...)
									}
								})
							}
						}
						return true
					})
				}
			}
		}
	}
	return out
}

// Sound tells whether the model can work with a schema.
func (s *Schema) Sound() (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	w := NewWorld(s)
	for _, r := range s.Roots {
		c := &Codec{W: w}
		in := w.Inst(r, nil)
		g := &VG{C: c, R: NewRng(7)}
		for k := 0; k < 5; k++ {
			v := g.Root(in)
			if v == nil {
				return false
			}
			if _, err := c.Encode(in, v, 0); err != nil {
				return false
			}
		}
	}
	return true
}
