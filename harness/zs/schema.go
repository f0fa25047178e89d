// Package zs is an independent model of the zserio schema language and of its
// wire format: schema trees, a printer to .zs text, an expression evaluator, a
// reference codec and generators. It shares no code with go-zserio.
package zs

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// Schema is a set of packages.
type Schema struct {
	Pkgs  []*Pkg   `json:"pkgs"`
	Roots []string `json:"roots"` // "pkg:Type": compounds without parameters
}

// Pkg is one zserio package, which is one file.
type Pkg struct {
	Name    string   `json:"name"`
	Imports []string `json:"imports,omitempty"` // "a.b.*" or "a.b.Type"
	Decls   []*Decl  `json:"decls"`
	File    string   `json:"file,omitempty"`
}

// Decl is a top-level declaration.
type Decl struct {
	Kind   string   `json:"kind"` // const subtype enum bitmask struct choice union instantiate
	Name   string   `json:"name"`
	Pkg    string   `json:"pkg"`
	Tmpl   []string `json:"tmpl,omitempty"`
	Type   *Type    `json:"type,omitempty"`
	Value  *Expr    `json:"value,omitempty"`
	Items  []*Item  `json:"items,omitempty"`
	Params []*Param `json:"params,omitempty"`
	Fields []*Field `json:"fields,omitempty"`
	Sel    *Expr    `json:"sel,omitempty"`
	Cases  []*Case  `json:"cases,omitempty"`
	HasDef bool     `json:"hasdef,omitempty"`
	Def    int      `json:"def,omitempty"` // field index of default, -1: no field
	Funcs  []*Func  `json:"funcs,omitempty"`
}

// Item is an enum item or a bitmask value.
type Item struct {
	Name  string `json:"name"`
	Value *Expr  `json:"value,omitempty"`
}

// Param is a type parameter.
type Param struct {
	Name string `json:"name"`
	Type *Type  `json:"type"`
	// Hint: inclusive range that argument values respect.
	Lo *int64 `json:"lo,omitempty"`
	Hi *int64 `json:"hi,omitempty"`
}

// Case is a choice case; several conditions may share a field.
type Case struct {
	Conds []*Expr `json:"conds"`
	Field int     `json:"field"` // index into Fields, -1: no field
}

// Func is a function.
type Func struct {
	Name string `json:"name"`
	Ret  *Type  `json:"ret"`
	Body *Expr  `json:"body"`
}

// Array kinds.
const (
	NoArray = iota
	AutoArray
	FixedArray
)

// Field is a struct, choice or union field.
type Field struct {
	Name     string `json:"name"`
	Type     *Type  `json:"type"`
	Array    int    `json:"array,omitempty"`
	Len      *Expr  `json:"len,omitempty"`
	Packed   bool   `json:"packed,omitempty"`
	Optional bool   `json:"optional,omitempty"`
	If       *Expr  `json:"if,omitempty"`
	Align    int    `json:"align,omitempty"`
	Default  *Expr  `json:"default,omitempty"`
	// Hints for value generation: inclusive range of values (elements too).
	Lo     *int64 `json:"lo,omitempty"`
	Hi     *int64 `json:"hi,omitempty"`
	MaxLen int    `json:"maxlen,omitempty"`
}

// Type is a type reference as written.
type Type struct {
	K     string  `json:"k"` // builtin name, "bit"/"int" (with Bits), "dbit"/"dint" (with Len), "ref", "tparam"
	Bits  int     `json:"bits,omitempty"`
	Len   *Expr   `json:"len,omitempty"`
	Ref   string  `json:"ref,omitempty"` // "pkg:Name"
	Qual  bool    `json:"qual,omitempty"`
	Targs []*Type `json:"targs,omitempty"`
	Args  []*Expr `json:"args,omitempty"`
	TP    string  `json:"tp,omitempty"`
}

// Expr is an expression tree.
type Expr struct {
	Op   string  `json:"op"`
	Text string  `json:"text,omitempty"` // literal text or identifier
	Ref  string  `json:"ref,omitempty"`  // "pkg:Decl" of const, enum, bitmask
	Qual bool    `json:"qual,omitempty"`
	Args []*Expr `json:"args,omitempty"`
	TP   string  `json:"tp,omitempty"`
}

// P splits "pkg:Name".
func P(ref string) (pkg, name string) {
	i := strings.IndexByte(ref, ':')
	return ref[:i], ref[i+1:]
}

// Find looks a declaration up.
func (s *Schema) Find(ref string) *Decl {
	p, n := P(ref)
	for _, pk := range s.Pkgs {
		if pk.Name == p {
			for _, d := range pk.Decls {
				if d.Name == n {
					return d
				}
			}
		}
	}
	return nil
}

// Clone copies a schema.
func (s *Schema) Clone() *Schema {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	var c Schema
	if err := json.Unmarshal(b, &c); err != nil {
		panic(err)
	}
	return &c
}

// Ref is the name of a declaration.
func (d *Decl) Ref() string { return d.Pkg + ":" + d.Name }

// FieldIndex finds a field.
func (d *Decl) FieldIndex(name string) int {
	for i, f := range d.Fields {
		if f.Name == name {
			return i
		}
	}
	return -1
}

// ParamIndex finds a parameter.
func (d *Decl) ParamIndex(name string) int {
	for i, f := range d.Params {
		if f.Name == name {
			return i
		}
	}
	return -1
}

// Builtins without an argument.
var Builtins = []string{
	"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64",
	"varint", "varint16", "varint32", "varint64",
	"varuint", "varuint16", "varuint32", "varuint64", "varsize",
	"bool", "string", "float16", "float32", "float64", "extern", "bytes",
}

// Expression constructors.

// Lit is an integer literal.
func Lit(n int64) *Expr {
	if n < 0 {
		return &Expr{Op: "neg", Args: []*Expr{{Op: "int", Text: fmt.Sprint(-n)}}}
	}
	return &Expr{Op: "int", Text: fmt.Sprint(n)}
}

// ID is a field or parameter.
func ID(name string) *Expr { return &Expr{Op: "id", Text: name} }

// Bin is a binary operation.
func Bin(op string, a, b *Expr) *Expr { return &Expr{Op: op, Args: []*Expr{a, b}} }

// precedence of an operator; larger binds tighter (ZserioParser.g4 order).
func prec(op string) int {
	switch op {
	case "?:":
		return 1
	case "||":
		return 2
	case "&&":
		return 3
	case "|":
		return 4
	case "^":
		return 5
	case "&":
		return 6
	case "==", "!=":
		return 7
	case "<", "<=", ">", ">=":
		return 8
	case "<<", ">>":
		return 9
	case "+", "-":
		return 10
	case "*", "/", "%":
		return 11
	case "neg", "pos", "!", "~":
		return 12
	case "dot", "idx", "call":
		return 14
	}
	return 20
}

func short(ref string, qual bool) string {
	p, n := P(ref)
	if qual {
		return p + "." + n
	}
	return n
}

func (e *Expr) str(min int) string {
	s := e.raw()
	if prec(e.Op) < min {
		return "(" + s + ")"
	}
	return s
}

func (e *Expr) String() string { return e.str(0) }

func (e *Expr) raw() string {
	p := prec(e.Op)
	switch e.Op {
	case "int", "float", "bool", "str", "id":
		return e.Text
	case "const":
		return short(e.Ref, e.Qual)
	case "item": // Enum.ITEM or Bitmask.ITEM
		if e.TP != "" {
			return e.TP + "." + e.Text
		}
		return short(e.Ref, e.Qual) + "." + e.Text
	case "bareitem": // ITEM, in a choice case
		return e.Text
	case "index":
		return "@index"
	case "paren":
		return "(" + e.Args[0].str(0) + ")"
	case "neg":
		return "-" + e.Args[0].str(13)
	case "pos":
		return "+" + e.Args[0].str(13)
	case "!":
		return "!" + e.Args[0].str(12)
	case "~":
		return "~" + e.Args[0].str(12)
	case "dot":
		return e.Args[0].str(14) + "." + e.Text
	case "call": // function call on self ("") or on Args[0]
		if len(e.Args) == 0 {
			return e.Text + "()"
		}
		return e.Args[0].str(14) + "." + e.Text + "()"
	case "idx":
		return e.Args[0].str(14) + "[" + e.Args[1].str(0) + "]"
	case "lengthof", "valueof", "numbits":
		return e.Op + "(" + e.Args[0].str(0) + ")"
	case "isset":
		return "isset(" + e.Args[0].str(0) + ", " + e.Args[1].str(0) + ")"
	case "?:":
		return e.Args[0].str(p+1) + " ? " + e.Args[1].str(p+1) + " : " + e.Args[2].str(p)
	}
	return e.Args[0].str(p) + " " + e.Op + " " + e.Args[1].str(p+1)
}

func (t *Type) ref() string {
	switch t.K {
	case "bit", "int":
		return fmt.Sprintf("%s:%d", t.K, t.Bits)
	case "dbit":
		return "bit"
	case "dint":
		return "int"
	case "tparam":
		return t.TP
	case "ref":
		s := short(t.Ref, t.Qual)
		if len(t.Targs) > 0 {
			var a []string
			for _, x := range t.Targs {
				a = append(a, x.ref())
			}
			s += "<" + strings.Join(a, ", ") + ">"
		}
		return s
	}
	return t.K
}

func (t *Type) String() string {
	s := t.ref()
	if t.Len != nil {
		s += "<" + t.Len.str(10) + ">" // tighter than shifts and relations
	}
	if len(t.Args) > 0 {
		var a []string
		for _, x := range t.Args {
			a = append(a, x.String())
		}
		s += "(" + strings.Join(a, ", ") + ")"
	}
	return s
}

func (f *Field) String() string {
	var b strings.Builder
	if f.Align != 0 {
		fmt.Fprintf(&b, "align(%d): ", f.Align)
	}
	if f.Optional {
		b.WriteString("optional ")
	}
	if f.Packed {
		b.WriteString("packed ")
	}
	b.WriteString(f.Type.String() + " " + f.Name)
	switch f.Array {
	case AutoArray:
		b.WriteString("[]")
	case FixedArray:
		b.WriteString("[" + f.Len.String() + "]")
	}
	if f.Default != nil {
		b.WriteString(" = " + f.Default.String())
	}
	if f.If != nil {
		b.WriteString(" if " + f.If.String())
	}
	return b.String()
}

func (d *Decl) head() string {
	s := d.Name
	if len(d.Tmpl) > 0 {
		s += "<" + strings.Join(d.Tmpl, ", ") + ">"
	}
	if len(d.Params) > 0 {
		var a []string
		for _, p := range d.Params {
			a = append(a, p.Type.String()+" "+p.Name)
		}
		s += "(" + strings.Join(a, ", ") + ")"
	}
	return s
}

func (d *Decl) String() string {
	var b strings.Builder
	funcs := func() {
		for _, f := range d.Funcs {
			fmt.Fprintf(&b, "\n    function %s %s()\n    {\n        return %s;\n    }\n", f.Ret.ref(), f.Name, f.Body)
		}
	}
	switch d.Kind {
	case "const":
		fmt.Fprintf(&b, "const %s %s = %s;\n", d.Type, d.Name, d.Value)
	case "subtype":
		fmt.Fprintf(&b, "subtype %s %s;\n", d.Type, d.Name)
	case "instantiate":
		fmt.Fprintf(&b, "instantiate %s %s;\n", d.Type, d.Name)
	case "enum", "bitmask":
		fmt.Fprintf(&b, "%s %s %s\n{\n", d.Kind, d.Type, d.Name)
		for i, it := range d.Items {
			b.WriteString("    " + it.Name)
			if it.Value != nil {
				b.WriteString(" = " + it.Value.String())
			}
			if i < len(d.Items)-1 {
				b.WriteString(",")
			}
			b.WriteString("\n")
		}
		b.WriteString("};\n")
	case "struct":
		fmt.Fprintf(&b, "struct %s\n{\n", d.head())
		for _, f := range d.Fields {
			b.WriteString("    " + f.String() + ";\n")
		}
		funcs()
		b.WriteString("};\n")
	case "union":
		fmt.Fprintf(&b, "union %s\n{\n", d.head())
		for _, f := range d.Fields {
			b.WriteString("    " + f.String() + ";\n")
		}
		funcs()
		b.WriteString("};\n")
	case "choice":
		fmt.Fprintf(&b, "choice %s on %s\n{\n", d.head(), d.Sel)
		for _, c := range d.Cases {
			for _, e := range c.Conds {
				b.WriteString("    case " + e.str(2) + ":\n")
			}
			if c.Field >= 0 {
				b.WriteString("        " + d.Fields[c.Field].String())
			}
			b.WriteString("    ;\n")
		}
		if d.HasDef {
			b.WriteString("    default:\n")
			if d.Def >= 0 {
				b.WriteString("        " + d.Fields[d.Def].String())
			}
			b.WriteString("    ;\n")
		}
		funcs()
		b.WriteString("};\n")
	}
	return b.String()
}

func (p *Pkg) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s;\n\n", p.Name)
	for _, i := range p.Imports {
		fmt.Fprintf(&b, "import %s;\n", i)
	}
	for _, d := range p.Decls {
		b.WriteString("\n" + d.String())
	}
	return b.String()
}

// FileName is the schema file of a package.
func (p *Pkg) FileName() string {
	if p.File != "" {
		return p.File
	}
	return strings.ReplaceAll(p.Name, ".", "/") + ".zs"
}

// Text prints the whole schema.
func (s *Schema) Text() string {
	var b strings.Builder
	for _, p := range s.Pkgs {
		b.WriteString("// file " + p.FileName() + "\n" + p.String() + "\n")
	}
	return b.String()
}

// Walk visits every expression of a declaration.
func (d *Decl) Walk(fe func(*Expr), ft func(*Type)) {
	var we func(e *Expr)
	we = func(e *Expr) {
		if e == nil {
			return
		}
		if fe != nil {
			fe(e)
		}
		for _, a := range e.Args {
			we(a)
		}
	}
	var wt func(t *Type)
	wt = func(t *Type) {
		if t == nil {
			return
		}
		if ft != nil {
			ft(t)
		}
		we(t.Len)
		for _, a := range t.Args {
			we(a)
		}
		for _, a := range t.Targs {
			wt(a)
		}
	}
	wt(d.Type)
	we(d.Value)
	for _, i := range d.Items {
		we(i.Value)
	}
	for _, p := range d.Params {
		wt(p.Type)
	}
	for _, f := range d.Fields {
		wt(f.Type)
		we(f.Len)
		we(f.If)
		we(f.Default)
	}
	we(d.Sel)
	for _, c := range d.Cases {
		for _, e := range c.Conds {
			we(e)
		}
	}
	for _, f := range d.Funcs {
		wt(f.Ret)
		we(f.Body)
	}
}

// Uses lists the declarations a declaration refers to.
func (d *Decl) Uses() []string {
	m := map[string]bool{}
	d.Walk(func(e *Expr) {
		if e.Ref != "" {
			m[e.Ref] = true
		}
	}, func(t *Type) {
		if t.Ref != "" {
			m[t.Ref] = true
		}
	})
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
