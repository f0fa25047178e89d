package zs

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"strings"
)

// Val is a value of a schema type.
type Val struct {
	K    byte     // i b f s (string) y (bytes) x (extern) a (array) o (compound)
	N    *big.Int // i
	B    bool     // b
	F    uint64   // f: bits of the float64
	S    []byte   // s y x
	Bits uint64   // x
	A    []*Val   // a
	O    []*Val   // o: by field index; nil: absent
	P    []*EV    // o: parameters
	Tag  int      // o: union branch; choice branch (-1: none)
}

// Same compares values (fields that are present).
func Same(a, b *Val) bool { return Diff(a, b, "") == "" }

// Diff describes the first difference.
func Diff(a, b *Val, path string) string {
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return fmt.Sprintf("%s: present %v vs %v", path, a != nil, b != nil)
	}
	if a.K != b.K {
		return fmt.Sprintf("%s: kind %c vs %c", path, a.K, b.K)
	}
	ne := func() string { return fmt.Sprintf("%s: %s vs %s", path, a.Short(), b.Short()) }
	switch a.K {
	case 'i':
		if a.N.Cmp(b.N) != 0 {
			return ne()
		}
	case 'b':
		if a.B != b.B {
			return ne()
		}
	case 'f':
		x, y := math.Float64frombits(a.F), math.Float64frombits(b.F)
		if a.F != b.F && !(math.IsNaN(x) && math.IsNaN(y)) {
			return ne()
		}
	case 's', 'y':
		if !bytes.Equal(a.S, b.S) {
			return ne()
		}
	case 'x':
		if a.Bits != b.Bits || !sameBits(a.S, b.S, a.Bits) {
			return ne()
		}
	case 'a':
		if len(a.A) != len(b.A) {
			return fmt.Sprintf("%s: %d elements vs %d", path, len(a.A), len(b.A))
		}
		for i := range a.A {
			if d := Diff(a.A[i], b.A[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case 'o':
		if a.Tag != b.Tag {
			return fmt.Sprintf("%s: branch %d vs %d", path, a.Tag, b.Tag)
		}
		if len(a.O) != len(b.O) {
			return path + ": fields"
		}
		for i := range a.O {
			if d := Diff(a.O[i], b.O[i], fmt.Sprintf("%s.%d", path, i)); d != "" {
				return d
			}
		}
	}
	return ""
}

func sameBits(a, b []byte, n uint64) bool {
	full := int(n / 8)
	if len(a) < int(n+7)/8 || len(b) < int(n+7)/8 || !bytes.Equal(a[:full], b[:full]) {
		return false
	}
	if r := n % 8; r > 0 {
		m := byte(0xff) << (8 - r)
		return a[full]&m == b[full]&m
	}
	return true
}

// Short prints a value.
func (v *Val) Short() string {
	if v == nil {
		return "absent"
	}
	switch v.K {
	case 'i':
		return v.N.String()
	case 'b':
		return fmt.Sprint(v.B)
	case 'f':
		return fmt.Sprint(math.Float64frombits(v.F))
	case 's':
		if len(v.S) > 60 {
			return fmt.Sprintf("string(%d bytes)", len(v.S))
		}
		return fmt.Sprintf("%q", v.S)
	case 'y':
		return fmt.Sprintf("bytes(%x)", clip(v.S))
	case 'x':
		return fmt.Sprintf("extern(%d bits %x)", v.Bits, clip(v.S))
	case 'a':
		var s []string
		for i, x := range v.A {
			if i == 40 {
				s = append(s, fmt.Sprintf("... %d in all", len(v.A)))
				break
			}
			s = append(s, x.Short())
		}
		return "[" + strings.Join(s, " ") + "]"
	}
	var s []string
	for i, x := range v.O {
		if x != nil {
			s = append(s, fmt.Sprintf("%d:%s", i, x.Short()))
		}
	}
	return "{" + strings.Join(s, " ") + "}"
}

func clip(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}

// Render prints a compound with field names.
func (w *World) Render(in *Inst, v *Val) string {
	if v == nil {
		return "absent"
	}
	var s []string
	for i, x := range v.O {
		if x == nil {
			continue
		}
		f := in.D.Fields[i]
		rt := w.F(in, i)
		t := x.Short()
		if rt.K == "comp" {
			if f.Array == NoArray {
				t = w.Render(rt.In, x)
			} else {
				var e []string
				for _, y := range x.A {
					e = append(e, w.Render(rt.In, y))
				}
				t = "[" + strings.Join(e, ", ") + "]"
			}
		}
		s = append(s, f.Name+": "+t)
	}
	return "{" + strings.Join(s, ", ") + "}"
}

// CloneVal copies a value (parameters shared).
func CloneVal(v *Val) *Val {
	if v == nil {
		return nil
	}
	c := *v
	if v.N != nil {
		c.N = new(big.Int).Set(v.N)
	}
	c.S = append([]byte(nil), v.S...)
	if v.A != nil {
		c.A = make([]*Val, len(v.A))
		for i, x := range v.A {
			c.A[i] = CloneVal(x)
		}
	}
	if v.O != nil {
		c.O = make([]*Val, len(v.O))
		for i, x := range v.O {
			c.O[i] = CloneVal(x)
		}
	}
	return &c
}
