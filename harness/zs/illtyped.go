package zs

// Expressions whose operands have types that the operator does not take.

func un(op string, a *Expr) *Expr { return &Expr{Op: op, Args: []*Expr{a}} }

// atoms lists operands of a compound by kind: I F S B E M C, and A for arrays.
func (m *inv) atoms(d *Decl) map[byte][]*Expr {
	w := NewWorld(m.s)
	at := map[byte][]*Expr{
		'I': {Lit(int64(m.r.N(20))), Lit(1)},
		'F': {{Op: "float", Text: Pick(m.r, []string{"1.5", "0.25f", "2.0"})}},
		'S': {{Op: "str", Text: Pick(m.r, []string{`"x"`, `""`, `"1"`})}},
		'B': {{Op: "bool", Text: Pick(m.r, []string{"true", "false"})}},
	}
	add := func(name string, t *Type, array bool) {
		if open(t) || !m.plain(name) {
			return
		}
		k := byte(0)
		rt := w.Resolve(nil, t)
		switch rt.K {
		case "u", "i", "vu", "vi":
			k = 'I'
		case "f16", "f32", "f64":
			k = 'F'
		case "string":
			k = 'S'
		case "bool":
			k = 'B'
		case "enum":
			k = 'E'
		case "mask":
			k = 'M'
		case "comp":
			k = 'C'
		}
		if array {
			k = 'A'
		}
		if k != 0 {
			at[k] = append(at[k], ID(name), ID(name))
		}
	}
	for _, f := range d.Fields {
		add(f.Name, f.Type, f.Array != NoArray)
	}
	for _, p := range d.Params {
		add(p.Name, p.Type, false)
	}
	return at
}

// illTyped builds an expression that no type is right for; nil if it lacks
// operands.
func (m *inv) illTyped(d *Decl) *Expr {
	at := m.atoms(d)
	get := func(kinds string) *Expr {
		var l []*Expr
		for i := 0; i < len(kinds); i++ {
			l = append(l, at[kinds[i]]...)
		}
		if len(l) == 0 {
			return nil
		}
		e := *Pick(m.r, l)
		if m.r.P(.15) {
			return un("paren", &e)
		}
		return &e
	}
	// bin puts the wrong operand on either side.
	bin := func(op string, bad, other *Expr) *Expr {
		if bad == nil || other == nil {
			return nil
		}
		if m.r.P(.5) {
			return Bin(op, bad, other)
		}
		return Bin(op, other, bad)
	}
	one := func(op, kinds string) *Expr {
		e := get(kinds)
		if e == nil {
			return nil
		}
		return un(op, e)
	}
	switch m.r.N(13) {
	case 0:
		return one("!", "IFSEMC")
	case 1:
		return one(Pick(m.r, []string{"neg", "pos"}), "SBEMC")
	case 2:
		return one("~", "FSBEC")
	case 3:
		op := Pick(m.r, []string{"+", "-", "*", "/", "%"})
		bad, other := "SBEMC", "IF"
		if op == "%" {
			bad = "FSBEMC"
		}
		if m.r.P(.3) {
			if op == "+" {
				bad = "BEMC"
			}
			other = "SBEMC"
		}
		return bin(op, get(bad), get(other))
	case 4:
		return bin(Pick(m.r, []string{"&", "|", "^", "<<", ">>"}), get("FSBEC"), get("IIIIFSBEMC"))
	case 5:
		return bin(Pick(m.r, []string{"&&", "||"}), get("IFSEMC"), get("BBBIFSEMC"))
	case 6:
		op := Pick(m.r, []string{"==", "!=", "<", "<=", ">", ">="})
		switch m.r.N(3) {
		case 0:
			return bin(op, get("S"), get("IBF"))
		case 1:
			return bin(op, get("B"), get("ISF"))
		}
		return bin(op, get("C"), get("ISBFEM"))
	case 7:
		c := get("IFSEMC")
		return &Expr{Op: "?:", Args: []*Expr{c, Lit(1), Lit(2)}}
	case 8:
		a, b := get("IFSBEC"), get("MIFSBEC")
		if m.r.P(.5) {
			a, b = b, a
		}
		return &Expr{Op: "isset", Args: []*Expr{a, b}}
	case 9:
		return one("numbits", "FSBEMC")
	case 10:
		return one("valueof", "IFSBC")
	case 11:
		return one("lengthof", "IFSBEMC")
	}
	a := get("A")
	switch m.r.N(4) {
	case 0:
		if a != nil && a.Op == "id" {
			return Bin("idx", a, get("FSBEC"))
		}
	case 1:
		if a = get("IFSBEMC"); a.Op == "id" {
			return Bin("idx", a, Lit(0))
		}
	case 2:
		if a = get("IFSBEM"); a.Op == "id" {
			return &Expr{Op: "dot", Text: m.fresh, Args: []*Expr{a}}
		}
	case 3:
		if a = get("IFSBEMCA"); a.Op == "id" {
			return &Expr{Op: "call", Text: a.Text}
		}
	}
	return nil
}

func init() {
	invalidKinds["operand-type"] = func(m *inv) bool {
		for try := 0; try < 10; try++ {
			d := m.pick(m.live, func(d *Decl) bool {
				n := 0
				d.Walk(func(e *Expr) { n++ }, nil)
				return n > 0
			})
			if d == nil {
				return false
			}
			var spots []*Expr
			d.Walk(func(e *Expr) { spots = append(spots, e) }, nil)
			d.Walk(func(e *Expr) { // names of members stand for themselves
				switch e.Op {
				case "dot", "call", "idx", "lengthof":
					for i, s := range spots {
						if len(e.Args) > 0 && s == e.Args[0] {
							spots = append(spots[:i:i], spots[i+1:]...)
							break
						}
					}
				}
			}, nil)
			if len(spots) == 0 {
				continue
			}
			x := m.illTyped(d)
			if x == nil {
				continue
			}
			e := Pick(m.r, spots)
			old := e.String()
			*e = Expr{Op: "paren", Args: []*Expr{x}}
			if m.r.P(.7) {
				*e = *x
			}
			return m.done(d, "operands of %s (it was %s) have a type that is not allowed", x, old)
		}
		return false
	}
}
