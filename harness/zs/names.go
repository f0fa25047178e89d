package zs

import (
	"fmt"
	"strings"
)

// Names makes a schema of simple declarations whose names are hard to turn
// into file names: they are similar, long or have a meaning to the Go tools.
// Without references between declarations.
func Names(r *Rng) *Schema {
	s := &Schema{}
	words := []string{"foo", "bar", "test", "pkg", "linux", "amd64", "x", "data", "windows", "arm", "js", "map", "id", "v2", "unix", "init", "main", "doc"}
	np := r.In(1, 3)
	pkgs := map[string]bool{}
	for len(s.Pkgs) < np {
		var parts []string
		for k := r.In(1, 3); k > 0; k-- {
			parts = append(parts, Pick(r, []string{"alpha", "beta", "a", "b", "long_package_name", "test", "linux", "pkg", "foo"}))
		}
		if len(s.Pkgs) > 0 && r.P(.4) {
			parts = append(strings.Split(s.Pkgs[0].Name, "."), parts[0])
		}
		n := strings.Join(parts, ".")
		if pkgs[n] {
			continue
		}
		pkgs[n] = true
		p := &Pkg{Name: n}
		s.Pkgs = append(s.Pkgs, p)
		used := map[string]bool{}
		var base []string // words of the previous name
		nd := r.In(0, 9)
		if r.P(.15) {
			nd = r.In(10, 24)
		}
		long := r.P(.3)
		for i := 0; i < nd; i++ {
			w := base
			if len(w) == 0 || r.P(.35) {
				w = nil
				n := r.In(1, 3)
				if long {
					n = r.In(6, 40)
				}
				for ; n > 0; n-- {
					w = append(w, Pick(r, words))
				}
			} else if r.P(.4) {
				w = append(w[:len(w):len(w)], Pick(r, words))
			} else if r.P(.2) && len(w) > 1 {
				w = w[:len(w)-1]
			}
			base = w
			var b strings.Builder
			style := r.N(6)
			for k, x := range w {
				t := strings.ToUpper(x[:1]) + x[1:]
				if k == 0 && r.P(.15) {
					t = x
				}
				switch style {
				case 0, 1:
					b.WriteString(t)
				case 2:
					if k > 0 {
						b.WriteByte('_')
					}
					b.WriteString(t)
				case 3:
					b.WriteString(strings.ToUpper(x))
				case 4:
					if k > 0 && r.P(.5) {
						b.WriteByte('_')
					}
					b.WriteString(t)
				default:
					if r.P(.3) {
						t = strings.ToUpper(x)
					}
					b.WriteString(t)
				}
			}
			name := b.String()
			if r.P(.1) {
				name += fmt.Sprint(r.N(3))
			}
			if r.P(.05) {
				name += "_"
			}
			if !(name[0] >= 'a' && name[0] <= 'z' || name[0] >= 'A' && name[0] <= 'Z') || reservedName[name] {
				continue
			}
			k := strings.ToUpper(name[:1]) + name[1:]
			if used[k] {
				continue
			}
			used[k] = true
			p.Decls = append(p.Decls, Simple(Pick(r, []string{"struct", "struct", "union", "choice", "enum", "bitmask", "const", "subtype"}), n, name))
		}
		if r.P(.3) {
			p.File = Pick(r, []string{"x.zs", "deep/er/y.zserio", "a.b.zs", "with space.zs", "pkg.zs", "test.zserio"})
			p.File = fmt.Sprintf("f%d/%s", len(s.Pkgs), p.File)
		}
	}
	return s
}

var reservedName = map[string]bool{"map": true, "init": true, "main": true, "string": true, "bool": true, "int": true, "bit": true, "const": true, "default": true, "if": true, "import": true, "package": true, "case": true, "function": true}

// Simple is a declaration that needs nothing else.
func Simple(kind, pkg, name string) *Decl {
	u8 := func() *Type { return &Type{K: "uint8"} }
	d := &Decl{Kind: kind, Name: name, Pkg: pkg}
	switch kind {
	case "const":
		d.Type, d.Value = u8(), Lit(1)
	case "subtype":
		d.Type = u8()
	case "enum", "bitmask":
		d.Type, d.Items = u8(), []*Item{{Name: "AN_ITEM"}}
	case "struct", "union":
		d.Fields = []*Field{{Name: "aField", Type: u8()}}
	case "choice":
		d.Params = []*Param{{Name: "p", Type: u8()}}
		d.Sel = ID("p")
		d.Fields = []*Field{{Name: "aField", Type: u8()}}
		d.Cases = []*Case{{Conds: []*Expr{Lit(1)}}}
	}
	return d
}
