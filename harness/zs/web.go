package zs

import "fmt"

// Web makes a schema of many small packages that name each other's types
// through subtypes, so that what a package uses is often declared in a package
// that it does not import itself.
func Web(r *Rng) *Schema {
	s := &Schema{}
	names := []string{"a", "b", "c", "d", "e", "f", "g.sub", "h"}
	Shuffle(r, names)
	names = names[:r.In(4, 8)]
	count := 0
	add := func(p *Pkg, d *Decl) *Decl {
		count++
		d.Pkg, d.Name = p.Name, fmt.Sprintf("%s%d", d.Name, count)
		p.Decls = append(p.Decls, d)
		return d
	}
	u8 := func() *Type { return &Type{K: "uint8"} }
	var base func(*Decl) *Decl
	base = func(d *Decl) *Decl {
		if d.Kind == "subtype" && d.Type.K == "ref" {
			return base(s.Find(d.Type.Ref))
		}
		return d
	}
	for i, name := range names {
		p := &Pkg{Name: name}
		s.Pkgs = append(s.Pkgs, p)
		if i == 0 || r.P(.4) {
			for k := r.In(1, 3); k > 0; k-- {
				switch r.N(6) {
				case 0:
					add(p, &Decl{Kind: "struct", Name: "Plain", Fields: []*Field{{Name: "a", Type: u8()}, {Name: "b", Type: &Type{K: "string"}}}})
				case 1, 2:
					add(p, &Decl{Kind: "struct", Name: "Sized", Params: []*Param{{Name: "n", Type: u8(), Lo: ip(0), Hi: ip(7)}},
						Fields: []*Field{{Name: "v", Type: &Type{K: "int16"}, Array: FixedArray, Len: ID("n"), Packed: r.P(.5)}}})
				case 3:
					add(p, &Decl{Kind: "enum", Name: "Enum", Type: u8(), Items: []*Item{{Name: "ONE"}, {Name: "TWO", Value: Lit(5)}}})
				case 4:
					add(p, &Decl{Kind: "bitmask", Name: "Mask", Type: u8(), Items: []*Item{{Name: "X"}, {Name: "Y"}}})
				case 5:
					add(p, &Decl{Kind: "const", Name: "LEN", Type: u8(), Value: Lit(int64(r.In(1, 5)))})
				}
			}
		}
		// what it uses of the packages that it imports
		var types, subs, lens []*Decl
		for k := r.In(1, 4); k > 0 && i > 0; k-- {
			for _, d := range s.Pkgs[r.N(i)].Decls {
				switch {
				case d.Kind == "const":
					lens = append(lens, d)
				case d.Kind == "subtype":
					subs = append(subs, d)
				default:
					types = append(types, d)
				}
			}
		}
		pick := func() *Decl {
			if len(subs) > 0 && (len(types) == 0 || r.P(.6)) {
				return Pick(r, subs)
			}
			if len(types) > 0 {
				return Pick(r, types)
			}
			return nil
		}
		for k := r.In(0, 3); k > 0; k-- {
			if d := pick(); d != nil {
				t := &Type{K: "ref", Ref: d.Ref()}
				add(p, &Decl{Kind: "subtype", Name: "Sub", Type: t})
			} else if r.P(.3) {
				add(p, &Decl{Kind: "subtype", Name: "Sub", Type: &Type{K: Pick(r, []string{"varint", "uint32", "string"})}})
			}
		}
		if i > 0 && r.P(.7) {
			d := &Decl{Kind: "struct", Name: "User", Fields: []*Field{{Name: "n", Type: u8(), Lo: ip(0), Hi: ip(7)}}}
			for k := r.In(1, 4); k > 0; k-- {
				t := pick()
				if t == nil {
					break
				}
				f := &Field{Name: fmt.Sprintf("f%d", k), Type: &Type{K: "ref", Ref: t.Ref()}}
				if len(base(t).Params) > 0 {
					f.Type.Args = []*Expr{Pick(r, []*Expr{ID("n"), Lit(3)})}
				}
				if r.P(.3) {
					f.Array = AutoArray
					f.Packed = r.P(.4)
				} else if len(lens) > 0 && r.P(.5) {
					f.Array = FixedArray
					f.Len = &Expr{Op: "const", Ref: Pick(r, lens).Ref()}
				} else if r.P(.2) {
					f.Optional = true
				}
				d.Fields = append(d.Fields, f)
			}
			add(p, d)
			s.Roots = append(s.Roots, d.Ref())
		}
	}
	if len(s.Roots) == 0 {
		return Web(r)
	}
	s.FixImports(func() bool { return r.P(.7) }, func() bool { return r.P(.2) })
	for i, p := range s.Pkgs {
		if i > 0 && r.P(.4) { // an import that is not used
			if imp := s.Pkgs[r.N(i)].Name + ".*"; !contains(p.Imports, imp) {
				p.Imports = append(p.Imports, imp)
			}
		}
		Shuffle(r, p.Imports)
	}
	return s
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}
