package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"zsverif/grammar"
	"zsverif/rig"
	"zsverif/zs"
)

// C15: what the compiler must refuse, and that it never crashes or hangs.

func init() { plans["C15"] = planC15 }

// rejectCase runs one input.
func (c *check) rejectCase(x *CLICase) (kind, msg string) {
	d := c.scratch()
	defer c.drop(d)
	in := d + "/in"
	must(os.MkdirAll(in, 0o755))
	if x.Schema != nil {
		_, err := rig.WriteSchema(x.Schema, in)
		must(err)
	}
	for _, f := range x.Files {
		p := filepath.Join(in, f.Name)
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, f.content(), 0o644))
	}
	args := []string{"generate", "--out", d + "/o", "--rootpackage", "r/o"}
	if x.Seed%2 == 1 {
		args = append(args, "--sql")
	}
	args = append(args, in)
	// memory without bounds would end the whole sandbox
	cmd := append([]string{"--as=12000000000", c.rig.CLI}, args...)
	res := c.rig.Run(d, 120*time.Second, c.cliEnv(d), "/usr/bin/prlimit", cmd...)
	switch {
	case res.Panicked() || res.Code < 0 && !res.Timeout || strings.Contains(res.Err, "fatal error: "):
		return "panic", "the compiler crashes\n" + runText(res, args)
	case res.Timeout:
		return "hang", "the compiler does not end within 120 s\n" + runText(res, args)
	case res.Code == 0 && x.Must:
		return "accepted", "the compiler accepts what is no valid schema: " + x.Why + "\n" + runText(res, args)
	case res.Code != 0 && strings.TrimSpace(res.Err) == "":
		return "silent", "the compiler fails without a message\n" + runText(res, args)
	}
	return "", ""
}

func isWord(s string) bool {
	c := s[0]
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// split cuts a text into tokens with the white space and comments in front of
// them; it need not be exact.
func split(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		j := i
		for j < len(s) && (s[j] == ' ' || s[j] == '\n' || s[j] == '\t' || s[j] == '\r') {
			j++
		}
		if j < len(s) {
			switch {
			case isWord(s[j:]):
				for j < len(s) && isWord(s[j:]) {
					j++
				}
			case s[j] == '"':
				j++
				for j < len(s) && s[j] != '"' && s[j] != '\n' {
					j++
				}
				j = min(j+1, len(s))
			default:
				_, n := utf8.DecodeRuneInString(s[j:])
				j += n
			}
		}
		out = append(out, s[i:j])
		i = j
	}
	return out
}

var someTokens = func() []string {
	t := []string{"=", "==", "!=", "<", "<=", ">", ">=", "<<", ">>", "(", ")", "[", "]", "{", "}", ";", ",", ".", ":", "?", "+", "-", "*", "/", "%", "&", "&&", "|", "||", "^", "~", "!",
		"0", "1", "255", "0x1F", "0b1", "017", "1.5", "2.5f", "1e3", "\"text\"", "'", "\"", "x", "foo", "Bar", "a.b", "@", "#", "$", "\\", "`", "//", "/*", "*/", "\x00", "é", "uint8", "bit:4", "int:3", "18446744073709551616", "99999999999999999999999999", "1.", ".5", "0x", "0b2", "1a", "_"}
	for k := range grammar.Keywords {
		t = append(t, k)
	}
	sort.Strings(t)
	return t
}()

// garble changes some tokens of a text.
func garble(r *zs.Rng, text string, other []string) string {
	toks := split(text)
	n := 1
	for r.P(.35) && n < 8 {
		n++
	}
	for ; n > 0 && len(toks) > 0; n-- {
		i := r.N(len(toks))
		switch r.W(5, 4, 5, 3, 2, 1, 2, 1, 2) {
		case 0: // leave out
			toks = append(toks[:i:i], toks[i+1:]...)
		case 1: // repeat
			toks = append(toks[:i:i], append([]string{toks[i]}, toks[i:]...)...)
		case 2: // replace
			toks[i] = " " + zs.Pick(r, someTokens)
		case 3: // insert
			toks = append(toks[:i:i], append([]string{" " + zs.Pick(r, someTokens) + " "}, toks[i:]...)...)
		case 4: // exchange
			j := r.N(len(toks))
			toks[i], toks[j] = toks[j], toks[i]
		case 5: // cut off
			toks = toks[:i]
		case 6: // move a run
			j := min(len(toks), i+1+r.N(12))
			run := append([]string{}, toks[i:j]...)
			toks = append(toks[:i:i], toks[j:]...)
			k := r.N(len(toks) + 1)
			toks = append(toks[:k:k], append(run, toks[k:]...)...)
		case 7: // a run of another text
			o := split(zs.Pick(r, other))
			if len(o) > 0 {
				a := r.N(len(o))
				b := min(len(o), a+1+r.N(20))
				toks = append(toks[:i:i], append(append([]string{}, o[a:b]...), toks[i:]...)...)
			}
		default: // a token of the same text
			toks[i] = " " + strings.TrimSpace(zs.Pick(r, toks))
		}
	}
	s := strings.Join(toks, "")
	if r.P(.06) && len(s) > 0 {
		i := r.N(len(s))
		s = s[:i] + string([]byte{byte(r.N(256))}) + s[i+r.N(2):]
	}
	return s
}

// scramble exchanges parts of a schema that need not fit.
func scramble(r *zs.Rng, s *zs.Schema) *zs.Schema {
	s = s.Clone()
	n := r.In(1, 4)
	for ; n > 0; n-- {
		var es []*zs.Expr
		var ts []*zs.Type
		var ds []*zs.Decl
		for _, p := range s.Pkgs {
			for _, d := range p.Decls {
				d.Walk(func(e *zs.Expr) { es = append(es, e) }, func(t *zs.Type) { ts = append(ts, t) })
				ds = append(ds, d)
			}
		}
		if len(ds) == 0 {
			return s
		}
		switch r.W(6, 6, 2, 1, 2, 2, 1) {
		case 0:
			if len(es) > 0 {
				a, b := zs.Pick(r, es), cloneExpr(zs.Pick(r, es))
				if r.P(.3) {
					b = zs.Pick(r, []*zs.Expr{{Op: "str", Text: `"s"`}, {Op: "bool", Text: "true"}, {Op: "float", Text: "1.5"}, {Op: "int", Text: "99999999999999999999"}, {Op: "int", Text: "0"}, {Op: "neg", Args: []*zs.Expr{zs.Lit(1)}},
						zs.Bin("<<", zs.Lit(1), zs.Lit(int64(r.N(200)))), zs.Bin("/", zs.Lit(1), zs.Lit(0)), zs.Bin("%", zs.Lit(1), zs.Lit(0)), {Op: "float", Text: "1e400"}})
				}
				*a = *b
			}
		case 1:
			if len(ts) > 0 {
				a, b := zs.Pick(r, ts), cloneType(zs.Pick(r, ts))
				if r.P(.3) {
					b = &zs.Type{K: zs.Pick(r, []string{"string", "bool", "float32", "bytes", "extern", "varsize", "uint64", "int8", "float16"})}
				}
				if r.P(.15) {
					b = &zs.Type{K: "ref", Ref: zs.Pick(r, ds).Ref()}
				}
				*a = *b
			}
		case 2: // drop
			p := zs.Pick(r, s.Pkgs)
			if len(p.Decls) > 0 {
				i := r.N(len(p.Decls))
				p.Decls = append(p.Decls[:i:i], p.Decls[i+1:]...)
			}
		case 3: // the kind of a declaration
			d := zs.Pick(r, ds)
			if len(d.Fields) > 0 && len(d.Cases) == 0 {
				d.Kind = zs.Pick(r, []string{"struct", "union"})
			} else if len(d.Items) > 0 {
				d.Kind = zs.Pick(r, []string{"enum", "bitmask"})
			}
		case 4: // arguments
			if len(ts) > 0 {
				t := zs.Pick(r, ts)
				switch {
				case len(t.Args) > 0 && r.P(.6):
					t.Args = t.Args[1:]
				case len(es) > 0:
					t.Args = append(t.Args, cloneExpr(zs.Pick(r, es)))
				}
				if r.P(.3) {
					t.Targs = append(t.Targs, cloneType(zs.Pick(r, ts)))
				}
			}
		case 5: // a field moves
			a, b := zs.Pick(r, ds), zs.Pick(r, ds)
			if len(a.Fields) > 0 && len(b.Fields) > 0 && len(a.Cases)+len(b.Cases) == 0 {
				f := *zs.Pick(r, a.Fields)
				f.Name += "X"
				b.Fields = append(b.Fields, &f)
			}
		default: // name of something else
			d, e := zs.Pick(r, ds), zs.Pick(r, ds)
			d.Name = e.Name
		}
	}
	return s
}

func cloneExpr(e *zs.Expr) *zs.Expr {
	d := &zs.Schema{Pkgs: []*zs.Pkg{{Decls: []*zs.Decl{{Value: e}}}}}
	return d.Clone().Pkgs[0].Decls[0].Value
}

func cloneType(t *zs.Type) *zs.Type {
	d := &zs.Schema{Pkgs: []*zs.Pkg{{Decls: []*zs.Decl{{Type: t}}}}}
	return d.Clone().Pkgs[0].Decls[0].Type
}

// shape makes a large or deep input of n parts.
type shape struct {
	name string
	max  int
	text func(n int) string
}

func rep(n int, f func(i int) string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(f(i))
	}
	return b.String()
}

func nest(n int, open, mid, close string) string {
	return strings.Repeat(open, n) + mid + strings.Repeat(close, n)
}

func sf(f string) func(i int) string {
	return func(i int) string { return strings.NewReplacer("#-", fmt.Sprint(i-1), "#", fmt.Sprint(i)).Replace(f) }
}

var shapes = []shape{
	{"parentheses", 30000, func(n int) string { return "package p;\nconst uint8 A = " + nest(n, "(", "1", ")") + ";\n" }},
	{"open parentheses", 30000, func(n int) string { return "package p;\nconst uint8 A = " + strings.Repeat("(", n) }},
	{"minus", 20000, func(n int) string { return "package p;\nconst int32 A = " + strings.Repeat("- ", n) + "1;\n" }},
	{"not", 20000, func(n int) string { return "package p;\nconst bool A = " + strings.Repeat("!", n) + "true;\n" }},
	{"tilde in a function", 20000, func(n int) string {
		return "package p;\nstruct S { uint8 a; function uint8 f() { return " + strings.Repeat("~", n) + "a; } };\n"
	}},
	{"ternary", 3000, func(n int) string {
		return "package p;\nstruct S { uint8 a; function uint8 f() { return " + strings.Repeat("a > 1 ? 1 : ", n) + "2; } };\n"
	}},
	{"ternary in the middle", 2000, func(n int) string {
		return "package p;\nstruct S { uint8 a; function uint8 f() { return " + nest(n, "a > 1 ? (", "1", ") : 2") + "; } };\n"
	}},
	{"sum", 6000, func(n int) string { return "package p;\nconst uint32 A = 1" + strings.Repeat(" + 1", n) + ";\n" }},
	{"sum of fields", 3000, func(n int) string {
		return "package p;\nstruct S { uint32 a; uint8 b if a" + strings.Repeat(" + a", n) + " > 4; };\n"
	}},
	{"conjunction", 3000, func(n int) string {
		return "package p;\nstruct S { uint32 a; uint8 b if a > 1" + strings.Repeat(" && a > 1", n) + "; };\n"
	}},
	{"index", 2000, func(n int) string {
		return "package p;\nstruct S { uint8 a[4]; uint8 b[" + nest(n, "a[", "0", "]") + "]; };\n"
	}},
	{"dots", 4000, func(n int) string {
		return "package p;\nstruct S { uint8 a; uint8 b[a" + strings.Repeat(".a", n) + "]; };\n"
	}},
	{"package parts", 4000, func(n int) string { return "package p" + strings.Repeat(".p", n) + ";\n" }},
	{"calls", 2000, func(n int) string {
		return "package p;\nstruct S { uint8 a; function uint8 f0() { return a; }\n" + rep(n, func(i int) string { return sf("function uint8 f#() { return f#-(); }\n")(i + 1) }) + "};\n"
	}},
	{"self call", 1, func(n int) string {
		return "package p;\nstruct S { uint8 a; function uint8 f() { return g(); } function uint8 g() { return f(); } uint8 b[f()]; };\n"
	}},
	{"template arguments", 300, func(n int) string {
		return "package p;\nstruct T<A> { A a; };\nstruct S { " + nest(n, "T<", "uint8", ">") + " x; };\n"
	}},
	{"growing template", 1, func(n int) string { return "package p;\nstruct T<A> { T<T<A>> a; };\nstruct S { T<uint8> x; };\n" }},
	{"growing templates", 1, func(n int) string {
		return "package p;\nstruct T<A> { U<A> a; };\nstruct U<A> { T<U<A>> a; };\nstruct S { T<uint8> x; };\n"
	}},
	{"recursive template", 1, func(n int) string {
		return "package p;\nstruct T<A> { A v; optional T<A> a; };\nstruct S { T<uint8> x; };\n"
	}},
	{"doubled templates", 60, func(n int) string {
		return "package p;\nstruct T0<A> { A a; };\n" + rep(n, func(i int) string { return sf("struct T#<A> { T#-<A> a; T#-<A> b; };\n")(i + 1) }) + fmt.Sprintf("struct S { T%d<uint8> x; packed T%d<uint16> y[]; };\n", n, n)
	}},
	{"constants", 1500, func(n int) string {
		return "package p;\nconst uint32 C0 = 1;\n" + rep(n, func(i int) string { return sf("const uint32 C# = C#- + 1;\n")(i + 1) })
	}},
	{"doubled constants", 60, func(n int) string {
		return "package p;\nconst uint8 C0 = 0;\n" + rep(n, func(i int) string { return sf("const uint8 C# = C#- + C#-;\n")(i + 1) })
	}},
	{"subtypes", 1500, func(n int) string {
		return "package p;\nsubtype uint8 C0;\n" + rep(n, func(i int) string { return sf("subtype C#- C#;\n")(i + 1) }) + fmt.Sprintf("struct S { C%d x; };\n", n)
	}},
	{"cyclic subtypes", 4, func(n int) string {
		return "package p;\nsubtype C" + fmt.Sprint(n) + " C0;\n" + rep(n, func(i int) string { return sf("subtype C#- C#;\n")(i + 1) }) + "struct S { C0 x; packed C0 y[]; };\n"
	}},
	{"structs", 1000, func(n int) string {
		return "package p;\nstruct S0 { uint8 a; };\n" + rep(n, func(i int) string { return sf("struct S# { S#- a; };\n")(i + 1) }) + fmt.Sprintf("struct S { S%d x; packed S%d y[]; };\n", n, n)
	}},
	{"doubled structs", 60, func(n int) string {
		return "package p;\nstruct S0 { uint8 a; };\n" + rep(n, func(i int) string { return sf("struct S# { S#- a; packed S#- b[]; };\n")(i + 1) }) + fmt.Sprintf("struct S { S%d x; packed S%d y[]; };\n", n, n)
	}},
	{"doubled unions", 60, func(n int) string {
		return "package p;\nunion S0 { uint8 a; };\n" + rep(n, func(i int) string { return sf("union S# { S#- a; S#- b[]; };\n")(i + 1) }) + fmt.Sprintf("struct S { S%d x; packed S%d y[]; };\n", n, n)
	}},
	{"doubled choices", 60, func(n int) string {
		return "package p;\nchoice S0(uint8 p) on p { case 1: uint8 a; };\n" + rep(n, func(i int) string {
			return sf("choice S#(uint8 p) on p { case 1: S#-(p) a; default: S#-(p) b[]; };\n")(i + 1)
		}) + fmt.Sprintf("struct S { uint8 p; S%d(p) x; packed S%d(p) y[]; };\n", n, n)
	}},
	{"recursive struct", 3, func(n int) string {
		return "package p;\nstruct S0 { S" + fmt.Sprint(n) + " a; packed S0 b[]; };\n" + rep(n, func(i int) string { return sf("struct S# { S#- a; packed S# b[]; };\n")(i + 1) })
	}},
	{"fields", 1500, func(n int) string { return "package p;\nstruct S {\n" + rep(n, sf("  uint8 f#;\n")) + "};\n" }},
	{"union fields", 800, func(n int) string { return "package p;\nunion S {\n" + rep(n, sf("  uint8 f#;\n")) + "};\n" }},
	{"items", 3000, func(n int) string { return "package p;\nenum uint16 E {\n" + rep(n, sf("  I#,\n")) + "  LAST };\n" }},
	{"too many items", 400, func(n int) string { return "package p;\nenum int8 E {\n" + rep(n, sf("  I#,\n")) + "  LAST };\n" }},
	{"bitmask items", 100, func(n int) string {
		return "package p;\nbitmask uint64 E {\n" + rep(n, sf("  I#,\n")) + "  LAST };\n"
	}},
	{"cases", 1500, func(n int) string {
		return "package p;\nchoice C(uint16 p) on p {\n" + rep(n, sf("  case #:\n")) + "  uint8 a; };\n"
	}},
	{"declarations", 400, func(n int) string { return "package p;\n" + rep(n, sf("struct S# { uint8 a; };\n")) }},
	{"imports", 2000, func(n int) string { return "package p;\n" + rep(n, sf("import q#.*;\n")) }},
	{"parameters", 600, func(n int) string {
		return "package p;\nstruct T(" + strings.TrimSuffix(rep(n, sf("uint8 p#, ")), ", ") + ") { uint8 a; };\n"
	}},
	{"template parameters", 200, func(n int) string {
		return "package p;\nstruct T<" + strings.TrimSuffix(rep(n, sf("P#, ")), ", ") + "> { P0 a; };\nstruct S { T<" + strings.TrimSuffix(strings.Repeat("uint8, ", n), ", ") + "> x; };\n"
	}},
	{"long name", 60000, func(n int) string { return "package p;\nstruct S" + strings.Repeat("a", n) + " { uint8 a; };\n" }},
	{"long package name", 60000, func(n int) string { return "package p" + strings.Repeat("a", n) + ";\n" }},
	{"long number", 20000, func(n int) string { return "package p;\nconst uint64 A = " + strings.Repeat("9", n) + ";\n" }},
	{"long binary", 20000, func(n int) string { return "package p;\nconst uint64 A = " + strings.Repeat("1", n) + "b;\n" }},
	{"long float", 20000, func(n int) string {
		return "package p;\nconst float64 A = " + strings.Repeat("9", n) + ".5e" + fmt.Sprint(n) + ";\n"
	}},
	{"long string", 60000, func(n int) string { return "package p;\nconst string A = \"" + strings.Repeat("x\\n", n) + "\";\n" }},
	{"open string", 60000, func(n int) string { return "package p;\nconst string A = \"" + strings.Repeat("x", n) }},
	{"open comment", 60000, func(n int) string { return "package p;\n/*" + strings.Repeat("* ", n) }},
	{"comment", 60000, func(n int) string {
		return "package p;\n/** " + strings.Repeat("/* x ", n) + "*/\nstruct S { uint8 a; };\n"
	}},
	{"braces", 20000, func(n int) string { return "package p;\n" + strings.Repeat("{", n) }},
	{"semicolons", 20000, func(n int) string { return "package p" + strings.Repeat(";", n) }},
	{"angles", 500, func(n int) string { return "package p;\nstruct S { " + strings.Repeat("T<", n) + " x; };\n" }},
	{"shift", 300, func(n int) string {
		return fmt.Sprintf("package p;\nconst uint64 A = 1 << %d;\nstruct S { uint8 a[1 << %d]; bit<%d> b; };\n", n, n, n)
	}},
	{"negative widths", 300, func(n int) string {
		return fmt.Sprintf("package p;\nstruct S { bit:%d a; int:%d b; bit<0-%d> c; uint8 d[0-%d]; align(0): uint8 e; align(%d): uint8 f; };\n", n, n, n, n, n)
	}},
	{"nothing", 1, func(n int) string { return "" }},
	{"only package", 1, func(n int) string { return "package p;" }},
	{"self import", 1, func(n int) string { return "package p;\nimport p.*;\nimport p.S;\nstruct S { uint8 a; };\n" }},
	{"empty bodies", 1, func(n int) string {
		return "package p;\nstruct S {};\nunion U {};\nchoice C(uint8 p) on p {};\nstruct T<A> {};\nstruct X { S s; U u; C(1) c; T<S> t; packed S ps[]; packed U pu[]; packed C(1) pc[]; };\n"
	}},
	{"empty enum", 1, func(n int) string { return "package p;\nenum uint8 E {};\n" }},
	{"empty bitmask", 1, func(n int) string { return "package p;\nbitmask uint8 E {};\n" }},
	{"self typed", 1, func(n int) string {
		return "package p;\nenum E E { A };\nbitmask B B { C };\nconst K K = 1;\nsubtype S S;\n"
	}},
	{"self selector", 1, func(n int) string {
		return "package p;\nchoice C(C c) on c { case 1: uint8 a; };\nstruct S(S s) { S(s) x; };\n"
	}},
}

func planC15(c *check) {
	c.rule = "Inputs: schemas (generated ones and the .zs files of the repository) with tokens left out, repeated, replaced, inserted, moved or exchanged; random bytes; schemas with one semantic defect of a known kind (unknown type, symbol or import, missing import or declaration, duplicates, constants that are not constant, cycles, wrong template arguments, operands of types an operator is not defined for); schemas with parts exchanged that need not fit; large and deeply nested inputs. The compiler must end without a crash, and must exit with a non-zero status and a message if the defect is certain: the text is not in the language of the grammar (decided by an independent recogniser) or the planted defect makes it invalid. A case is one run. Non-trivial: distinct inputs that must be refused, or are no unchanged schema."
	c.needCLI()
	var corpus []string
	filepath.WalkDir(c.rig.Repo, func(p string, d os.DirEntry, err error) error {
		if err == nil && !d.IsDir() && strings.HasSuffix(p, ".zs") {
			if b, err := os.ReadFile(p); err == nil && len(b) < 20000 {
				corpus = append(corpus, string(b))
			}
		}
		return nil
	})
	n := c.pick(5200, 40000)
	kinds := zs.InvalidKinds()
	var mu sync.Mutex
	var found []*Replay
	seen := map[uint64]bool{}
	for k := 0; k < 6; k++ {
		corpus = append(corpus, zs.Generate(zs.NewRng(c.seed, 150, uint64(k)), zs.DefaultProf()).Pkgs[0].String())
	}
	c.rig.Each(n, func(i int) {
		mu.Lock()
		stop := len(found) > 40
		mu.Unlock()
		if stop {
			return
		}
		r := zs.NewRng(c.seed, 15, uint64(i))
		x := &CLICase{Seed: r.U64()}
		p := zs.DefaultProf()
		p.Compounds = [2]int{1, 4}
		switch k := i % 20; {
		case k < 9: // tokens
			x.Scenario = "tokens"
			var texts, names []string
			if r.P(.3) {
				texts, names = []string{zs.Pick(r, corpus)}, []string{"a.zs"}
			} else {
				s := zs.Generate(r, p)
				for _, q := range s.Pkgs {
					texts, names = append(texts, q.String()), append(names, q.FileName())
				}
			}
			j := r.N(len(texts))
			was := texts[j]
			texts[j] = garble(r, was, corpus)
			if texts[j] == was {
				return
			}
			if !grammar.Accepts(texts[j]) {
				x.Must, x.Why = true, "syntax error in "+names[j]
			}
			for j := range texts {
				x.Files = append(x.Files, file(names[j], texts[j]))
			}
		case k < 10: // bytes
			x.Scenario = "bytes"
			b := make([]byte, r.N(200))
			for j := range b {
				if r.P(.5) {
					b[j] = byte(r.N(256))
				} else {
					b[j] = byte(32 + r.N(95))
				}
			}
			t := string(b)
			switch r.N(4) {
			case 0:
				t = "package p;\n" + t
			case 1:
				o := zs.Pick(r, corpus)
				j := r.N(len(o) + 1)
				t = o[:j] + t
			case 2:
				var l []string
				for j := r.N(40); j >= 0; j-- {
					l = append(l, zs.Pick(r, someTokens))
				}
				t = "package p;\n" + strings.Join(l, " ")
			}
			if !grammar.Accepts(t) {
				x.Must, x.Why = true, "syntax error"
			}
			x.Files = []CLIFile{file("a.zs", t)}
		case k < 16: // semantics
			p.Compounds = [2]int{2, 6}
			kind := kinds[(i/20*6+k-10)%len(kinds)]
			var iv *zs.Invalid
			for t := 0; t < 20 && iv == nil; t++ {
				iv = zs.Invalidate(r, zs.Generate(r, p), kind)
			}
			if iv == nil {
				mu.Lock()
				c.stats["not applicable "+kind]++
				mu.Unlock()
				return
			}
			x.Scenario, x.Schema, x.Must, x.Why, x.Keep = "invalid "+kind, iv.Schema, true, iv.What, iv.Keep
		case k < 19: // scrambled
			x.Scenario, x.Schema = "scrambled", scramble(r, zs.Generate(r, p))
		default:
			sh := shapes[i/20%len(shapes)]
			m := sh.max
			for r.P(.6) && m > 1 {
				m = m/2 + r.N(m/2+1)
			}
			x.Scenario = "shape " + sh.name
			x.Why = fmt.Sprintf("%d parts", m)
			t := sh.text(m)
			x.Files = []CLIFile{file("a.zs", t)}
			if len(t) < 3000 && !grammar.Accepts(t) {
				x.Must, x.Why = true, "syntax error"
			}
		}
		rp := c.runCLI(&Replay{Property: c.id, CLI: x})
		mu.Lock()
		defer mu.Unlock()
		c.evals++
		c.stats["scenario "+x.Scenario]++
		if x.Must {
			c.stats["must be refused"]++
		}
		h := fnv.New64a()
		if x.Schema != nil {
			fmt.Fprint(h, x.Schema.Text())
		}
		for _, f := range x.Files {
			h.Write(f.content())
		}
		seen[h.Sum64()] = true
		if len(c.samples) < 6 && i%4 == 1 {
			c.samples = append(c.samples, map[string]any{"scenario": x.Scenario, "must_refuse": x.Must, "why": x.Why, "input": clip(x.describe(), 700)})
		}
		if rp != nil {
			found = append(found, rp)
		}
	})
	c.nontriv = len(seen)
	c.reportCLI(found, c.shrinkReject)
}

func file(name, text string) CLIFile {
	if !utf8.ValidString(text) {
		return CLIFile{Name: name, Raw: []byte(text)}
	}
	return CLIFile{Name: name, Text: text}
}

// shrinkReject makes a failing input smaller.
func (c *check) shrinkReject(rp *Replay) *Replay {
	if rp.Kind == "hang" {
		return rp
	}
	if rp.CLI.Schema != nil {
		if rp.Kind == "accepted" && rp.CLI.Keep == "" {
			return rp
		}
		return c.shrinkSchema(rp, 60*time.Second, func(s *zs.Schema) bool { return true })
	}
	end := time.Now().Add(60 * time.Second)
	best := rp
	try := func(files []CLIFile) bool {
		x := *best.CLI
		x.Files = files
		if x.Must && rp.Kind == "accepted" {
			bad := false
			for _, f := range files {
				bad = bad || !grammar.Accepts(string(f.content()))
			}
			if !bad {
				return false
			}
		}
		r := c.runCLI(&Replay{Property: c.id, CLI: &x})
		if r == nil || r.Kind != best.Kind {
			return false
		}
		best = r
		return true
	}
	for i := 0; i < len(best.CLI.Files); {
		if len(best.CLI.Files) > 1 {
			fs := append(append([]CLIFile{}, best.CLI.Files[:i]...), best.CLI.Files[i+1:]...)
			if try(fs) {
				continue
			}
		}
		i++
	}
	for _, cut := range []func(string) []string{func(s string) []string { return strings.SplitAfter(s, "\n") }, split} {
		for i := range best.CLI.Files {
			parts := cut(string(best.CLI.Files[i].content()))
			for n := (len(parts) + 1) / 2; n >= 1 && time.Now().Before(end); {
				done := true
				for lo := 0; lo < len(parts) && time.Now().Before(end); {
					hi := min(len(parts), lo+n)
					rest := append(append([]string{}, parts[:lo]...), parts[hi:]...)
					fs := append([]CLIFile{}, best.CLI.Files...)
					fs[i] = file(fs[i].Name, strings.Join(rest, ""))
					if bytes.Equal(fs[i].content(), best.CLI.Files[i].content()) {
						lo = hi
						continue
					}
					if try(fs) {
						parts, done = rest, false
					} else {
						lo = hi
					}
				}
				if n == 1 && done {
					break
				}
				if n > 1 {
					n /= 2
				}
			}
		}
	}
	return best
}
