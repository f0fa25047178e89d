package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"hash/fnv"
	"io"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"zsverif/rig"
	"zsverif/zs"
)

// C16: which files the compiler reads and writes, compared with a model of
// the file tree; and faults that it has to report.

func init() { plans["C16"] = planC16 }

// sandbox is the scratch tree of one case.
type sandbox struct {
	dir, in, out, cwd string
	home              string
	x                 *CLICase
	r                 *zs.Rng
	files             []string // schema files
	srcs              []string // source arguments
	outArg            string
	opts              []string
	limit             int
	wrap              []string // command in front of the compiler
	env               []string
	uid               bool // run without privileges
}

func (c *check) newSandbox(x *CLICase) *sandbox {
	d := c.scratch()
	s := &sandbox{dir: d, in: d + "/in", out: d + "/out", cwd: d + "/cwd", home: d + "/home", x: x, r: zs.NewRng(x.Seed, 16)}
	for _, p := range []string{s.in, s.cwd, s.home, d + "/other"} {
		must(os.MkdirAll(p, 0o755))
	}
	put(d+"/other/file.go", "package other\n")
	put(s.cwd+"/keep.go", "package keep\n")
	fs, err := rig.WriteSchema(s.renamed(), s.in)
	must(err)
	s.files = fs
	s.srcs = []string{s.in}
	s.outArg = s.out
	return s
}

// renamed gives some schema files other names; all that counts are their
// extensions.
func (s *sandbox) renamed() *zs.Schema {
	r := zs.NewRng(s.x.Seed, 17)
	if r.P(.6) {
		return s.x.Schema
	}
	t := s.x.Schema.Clone()
	names := []string{"_x", "x_test", "a b", "-", "x.y.z", "CON", "0", "schema_linux", "_", "~", "ünï", "generated", "doc", "main", "README.md", "x.go"}
	dirs := []string{"_d", "testdata", "vendor", "a b", "node_modules", "x.zs", "internal", "d/_e/f", "go.mod"}
	zs.Shuffle(r, names)
	for i, p := range t.Pkgs {
		if i >= len(names) || r.P(.4) {
			continue
		}
		f := names[i] + zs.Pick(r, []string{".zs", ".zs", ".zserio"})
		if r.P(.5) {
			f = zs.Pick(r, dirs) + "/" + f
		}
		p.File = f
	}
	return t
}

func (s *sandbox) args() []string {
	a := []string{"generate"}
	if s.outArg != "" {
		a = append(a, "--out", s.outArg)
	}
	a = append(a, "--rootpackage", "r/o")
	a = append(a, s.opts...)
	if s.limit >= 0 {
		a = append(a, "--max-path-length", fmt.Sprint(s.limit))
	}
	return append(a, s.srcs...)
}

func (c *check) runBox(s *sandbox) (*rig.Result, []string) {
	args := s.args()
	cmd := append(append([]string{}, s.wrap...), c.rig.CLI)
	cmd = append(cmd, args...)
	env := append(c.cliEnv(s.home), s.env...)
	return c.rig.Run(s.cwd, 2*time.Minute, env, cmd[0], cmd[1:]...), args
}

// style draws how the sources and the output are given.
func (s *sandbox) style() {
	r := s.r
	// files that are no schemas, or hidden
	if r.P(.5) {
		for _, f := range []string{"README.md", "notes.zs.bak", ".hidden.zs", ".git/x.zs", "sub/.cache/deep/y.zserio", "zs", "sub/azs", ".zs", "schema.zsx", "old.zserio~"} {
			if r.P(.5) {
				put(filepath.Join(s.in, f), "this is { no schema")
			}
		}
		if r.P(.5) {
			must(os.MkdirAll(filepath.Join(s.in, "empty.zs"), 0o755))
		}
	}
	switch r.N(6) {
	case 0:
		s.srcs = append([]string{}, s.files...)
		zs.Shuffle(r, s.srcs)
	case 1:
		s.srcs = append([]string{s.in}, s.files...)
		zs.Shuffle(r, s.srcs)
	case 2:
		s.cwd = s.in
		s.srcs = []string{"."}
	case 3: // every entry of the directory
		es, _ := os.ReadDir(s.in)
		s.srcs = nil
		for _, e := range es {
			if strings.HasPrefix(e.Name(), ".") {
				continue
			}
			p := filepath.Join(s.in, e.Name())
			if e.IsDir() || strings.HasSuffix(p, ".zs") || strings.HasSuffix(p, ".zserio") {
				s.srcs = append(s.srcs, p)
			}
		}
		zs.Shuffle(r, s.srcs)
	case 4:
		s.srcs = []string{"../in/", "../in/./"}
	}
	switch r.N(5) {
	case 0:
		s.out = s.dir + "/new/nested/out"
		s.outArg = s.out
	case 1:
		s.outArg = s.out + "/"
	case 2:
		must(os.MkdirAll(s.out, 0o755))
		s.outArg, _ = filepath.Rel(s.cwd, s.out)
	case 3:
		must(os.MkdirAll(s.dir+"/real", 0o755))
		must(os.Symlink(s.dir+"/real", s.dir+"/link"))
		s.out = s.dir + "/real"
		s.outArg = s.dir + "/link"
	}
	if r.P(.4) {
		s.opts = append(s.opts, "--sql")
	}
	s.limit = -1
	longest := 0
	for _, p := range s.x.Schema.Pkgs {
		longest = max(longest, len(path.Join(s.outArg, rig.PkgPath(p.Name))))
	}
	tooLong := false // for a file name
	for _, p := range s.x.Schema.Pkgs {
		for _, d := range p.Decls {
			tooLong = tooLong || len(d.Name) > 110
		}
	}
	switch r.N(4) {
	case 0:
		if !tooLong {
			s.limit = 0
		}
	case 1:
		s.limit = longest + 14 + r.N(30)
	case 2:
		s.limit = longest + 14 + r.N(8)
	}
}

// goFile is what a generated file declares.
type goFile struct {
	pkg   string
	types []string
	all   []string // every name at package level
}

func parseGo(name, text string) (*goFile, error) {
	f, err := parser.ParseFile(token.NewFileSet(), name, text, 0)
	if err != nil {
		return nil, err
	}
	g := &goFile{pkg: f.Name.Name}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			n := d.Name.Name
			if d.Recv != nil && len(d.Recv.List) == 1 {
				t := d.Recv.List[0].Type
				if st, ok := t.(*ast.StarExpr); ok {
					t = st.X
				}
				if id, ok := t.(*ast.Ident); ok {
					n = id.Name + "." + n
				}
			}
			g.all = append(g.all, n)
		case *ast.GenDecl:
			for _, sp := range d.Specs {
				switch sp := sp.(type) {
				case *ast.TypeSpec:
					g.types = append(g.types, sp.Name.Name)
					g.all = append(g.all, sp.Name.Name)
				case *ast.ValueSpec:
					for _, n := range sp.Names {
						if n.Name != "_" {
							g.all = append(g.all, n.Name)
						}
					}
				}
			}
		}
	}
	return g, nil
}

// checkTree compares the files below the output directory with what the
// schema declares.
func (s *sandbox) checkTree(tree map[string]entry, only string, limit int) (kind, msg string) {
	dirs := map[string][]string{}
	okDirs := map[string]bool{".": true}
	for _, p := range s.x.Schema.Pkgs {
		if only == "" || p.Name == only {
			for d := rig.PkgPath(p.Name); d != "."; d = path.Dir(d) {
				okDirs[d] = true
			}
			dirs[rig.PkgPath(p.Name)] = nil
		}
	}
	lower := map[string]string{}
	for f, e := range tree {
		if e.mode.IsDir() {
			if !okDirs[f] {
				return "extra", fmt.Sprintf("unexpected directory %s", f)
			}
			continue
		}
		if !e.mode.IsRegular() || !strings.HasSuffix(f, ".go") {
			return "extra", fmt.Sprintf("unexpected %v %s", e, f)
		}
		if _, ok := dirs[path.Dir(f)]; !ok {
			return "extra", fmt.Sprintf("unexpected file %s: no package belongs there", f)
		}
		if l := strings.ToLower(f); lower[l] != "" {
			return "names", fmt.Sprintf("files %s and %s differ in case only", f, lower[l])
		} else {
			lower[l] = f
		}
		dirs[path.Dir(f)] = append(dirs[path.Dir(f)], path.Base(f))
		if limit > 0 && len(path.Join(s.outArg, f)) > limit {
			return "limit", fmt.Sprintf("the path %s has %d characters, more than %d", path.Join(s.outArg, f), len(path.Join(s.outArg, f)), limit)
		}
	}
	for _, p := range s.x.Schema.Pkgs {
		if only != "" && p.Name != only {
			continue
		}
		d := rig.PkgPath(p.Name)
		fs := dirs[d]
		sort.Strings(fs)
		where := map[string][]string{}
		pk := ""
		for _, f := range fs {
			if k, m := buildable(f); k != "" {
				return k, m
			}
			g, err := parseGo(f, tree[path.Join(d, f)].data)
			if err != nil {
				return "syntax", fmt.Sprintf("%s: %v", path.Join(d, f), err)
			}
			if pk == "" {
				pk = g.pkg
			}
			if pk != g.pkg {
				return "package", fmt.Sprintf("files of %s belong to packages %s and %s", d, pk, g.pkg)
			}
			for _, t := range g.all {
				where[t] = append(where[t], f)
			}
		}
		holds := map[string]string{}
		consts := map[string]bool{}
		ntype, templates := 0, false
		for _, e := range p.Decls {
			n := rig.GoName(e.Name)
			if len(e.Tmpl) > 0 {
				templates = true
				continue
			}
			if len(where[n]) != 1 {
				return "declared", fmt.Sprintf("%s %s is declared in files %q of %q", e.Kind, e.Ref(), where[n], fs)
			}
			f := where[n][0]
			switch e.Kind {
			case "const", "subtype":
				consts[f] = true
			default:
				ntype++
				if o := holds[f]; o != "" {
					return "shared", fmt.Sprintf("file %s holds %s and %s", path.Join(d, f), o, e.Name)
				}
				holds[f] = e.Name
			}
		}
		for f := range consts {
			if holds[f] != "" {
				return "shared", fmt.Sprintf("file %s holds %s and constants", path.Join(d, f), holds[f])
			}
		}
		if len(consts) > 1 {
			return "shared", fmt.Sprintf("constants of %s are in files %v", p.Name, sortedKeys(consts))
		}
		if want := ntype + 1; len(fs) < want || len(fs) > want && !templates && !s.instances() {
			return "count", fmt.Sprintf("package %s has %d files %q for %d types", p.Name, len(fs), fs, ntype)
		}
	}
	return "", ""
}

// instances tells whether the schema has templates.
func (s *sandbox) instances() bool {
	for _, p := range s.x.Schema.Pkgs {
		for _, d := range p.Decls {
			if len(d.Tmpl) > 0 {
				return true
			}
		}
	}
	return false
}

// buildable checks that the Go tools always build a file.
func buildable(f string) (kind, msg string) {
	if strings.HasSuffix(f, "_test.go") {
		return "build", fmt.Sprintf("%s is a test to the Go tools", f)
	}
	for _, t := range [][2]string{{"linux", "amd64"}, {"windows", "arm64"}, {"plan9", "386"}, {"js", "wasm"}} {
		ctx := build.Default
		ctx.GOOS, ctx.GOARCH = t[0], t[1]
		ctx.OpenFile = func(string) (io.ReadCloser, error) {
			return io.NopCloser(strings.NewReader("package x\n")), nil
		}
		ok, err := ctx.MatchFile("", f)
		if err != nil || !ok {
			return "build", fmt.Sprintf("the Go tools do not build %s for %s/%s: %v", f, t[0], t[1], err)
		}
	}
	return "", ""
}

// matchOK runs the Go tools on a scratch tree and reports the outcome.
func (c *check) filesCase(x *CLICase) (kind, msg string) {
	s := c.newSandbox(x)
	defer c.drop(s.dir)
	if fault, ok := faults[x.Scenario]; ok {
		return c.faultCase(s, fault)
	}
	s.style()
	only := ""
	if x.Scenario != "all" {
		only = zs.Pick(s.r, x.Schema.Pkgs).Name
	}
	// What is there already.
	old := map[string]entry{}
	if s.r.P(.4) {
		for _, p := range x.Schema.Pkgs {
			for _, f := range []string{"unrelated.txt", "my_extension.go.orig"} {
				put(filepath.Join(s.out, rig.PkgPath(p.Name), f), "keep me\n")
			}
		}
		old = snapshot(s.out)
	}
	before := snapshot(s.dir, s.out)
	res, args := c.runBox(s)
	if res.Code != 0 {
		return "refused", "a valid schema is refused\n" + runText(res, args)
	}
	full := snapshot(s.out)
	after := snapshot(s.dir, s.out)
	if strings.HasPrefix(s.out, s.dir+"/new") { // the parents of the output
		for p, e := range after {
			if _, ok := before[p]; !ok && e.mode.IsDir() && strings.HasPrefix(s.dir+"/new/nested", s.dir+"/"+p) {
				before[p] = e
			}
		}
	}
	if d := diffSnap(before, after); d != "" {
		return "elsewhere", fmt.Sprintf("something changed outside the output directory:\n%s\n%s", d, runText(res, args))
	}
	for p, e := range old {
		if full[p] != e {
			return "unrelated", fmt.Sprintf("%s was a %v, is a %v", p, e, full[p])
		}
		if !e.mode.IsDir() {
			delete(full, p)
		}
	}
	limit := s.limit
	if limit < 0 {
		limit = 260
	}
	if kind, msg = s.checkTree(full, "", limit); kind != "" {
		return kind, msg + "\n" + runText(res, args)
	}
	if res.Out != "" {
		return "stdout", fmt.Sprintf("something is written to standard output: %s", clip(res.Out, 300))
	}
	switch x.Scenario {
	case "all": // files that are there are replaced
		if s.r.P(.5) {
			break
		}
		for _, p := range sortedKeys(full) {
			e := full[p]
			if e.mode.IsDir() {
				continue
			}
			f := filepath.Join(s.out, p)
			switch s.r.N(5) {
			case 0:
				put(f, e.data+strings.Repeat("// "+clip(e.data, 40)+"\n", s.r.In(1, 60)))
			case 1:
				put(f, e.data[:s.r.N(len(e.data))])
			case 2:
				put(f, zs.Pick(s.r, []string{"", "package old\n", "no Go at all {", strings.Repeat("x", len(e.data))}))
			case 3:
				must(os.Remove(f))
			}
		}
		res, args := c.runBox(s)
		if res.Code != 0 {
			return "refused", "a valid schema is refused when its files are there already\n" + runText(res, args)
		}
		again := snapshot(s.out)
		for p, e := range old {
			if again[p] != e {
				return "unrelated", fmt.Sprintf("%s was a %v, is a %v", p, e, again[p])
			}
			if !e.mode.IsDir() {
				delete(again, p)
			}
		}
		if d := diffSnap(full, again); d != "" {
			return "replaced", fmt.Sprintf("files that were there already are not replaced:\n%s\n%s", d, runText(res, args))
		}
		if d := diffSnap(after, snapshot(s.dir, s.out)); d != "" {
			return "elsewhere", fmt.Sprintf("something changed outside the output directory:\n%s\n%s", d, runText(res, args))
		}
	case "only":
		must(os.Rename(s.out, s.dir+"/fullrun"))
		if s.outArg == s.dir+"/link" {
			must(os.MkdirAll(s.out, 0o755))
		}
		s.opts = append(append([]string{}, s.opts...), "--only", only)
		before := snapshot(s.dir, s.out)
		res, args := c.runBox(s)
		if res.Code != 0 {
			return "refused", "a valid schema is refused with --only\n" + runText(res, args)
		}
		part := snapshot(s.out)
		if d := diffSnap(before, snapshot(s.dir, s.out)); d != "" {
			return "elsewhere", fmt.Sprintf("something changed outside the output directory:\n%s\n%s", d, runText(res, args))
		}
		if kind, msg = s.checkTree(part, only, limit); kind != "" {
			return kind, msg + "\n" + runText(res, args)
		}
		want := map[string]entry{}
		for p, e := range full {
			if path.Dir(p) == rig.PkgPath(only) && !e.mode.IsDir() {
				want[p] = e
			}
		}
		for p, e := range part {
			if e.mode.IsDir() {
				delete(part, p)
			}
		}
		if d := diffSnap(want, part); d != "" {
			return "only", fmt.Sprintf("with --only %s other files are written than without:\n%s\n%s", only, d, runText(res, args))
		}
	case "stdout":
		was := snapshot(s.dir)
		s.outArg = "-"
		s.opts = append(append([]string{}, s.opts...), "--only", only)
		res, args := c.runBox(s)
		if res.Code != 0 {
			return "refused", "a valid schema is refused with -\n" + runText(res, args)
		}
		if d := diffSnap(was, snapshot(s.dir)); d != "" {
			return "elsewhere", fmt.Sprintf("files are written besides standard output:\n%s\n%s", d, runText(res, args))
		}
		g, err := parseGo("stdout", res.Out)
		if err != nil {
			return "syntax", fmt.Sprintf("standard output is no Go file: %v\n%s\n%s", err, clip(res.Out, 500), runText(res, args))
		}
		var want []string
		for p, e := range full {
			if path.Dir(p) == rig.PkgPath(only) && !e.mode.IsDir() {
				w, err := parseGo(p, e.data)
				if err != nil {
					return "syntax", err.Error()
				}
				want = append(want, w.all...)
			}
		}
		sort.Strings(want)
		sort.Strings(g.all)
		if a, b := strings.Join(want, " "), strings.Join(g.all, " "); a != b {
			return "stdout", fmt.Sprintf("standard output declares\n%s\ninstead of\n%s\n%s", clip(b, 1500), clip(a, 1500), runText(res, args))
		}
	}
	return "", ""
}

// A fault prepares a run that must fail; it returns false if it does not
// apply. Symlinks and files that were there must stay as they are.
type faultFn func(c *check, s *sandbox) bool

func (s *sandbox) anyPkg() *zs.Pkg { return zs.Pick(s.r, s.x.Schema.Pkgs) }

// aTarget finds a file that a full run writes.
func (c *check) aTarget(s *sandbox) string {
	save := s.outArg
	s.outArg = s.dir + "/try"
	res, _ := c.runBox(s)
	s.outArg = save
	if res.Code != 0 {
		return ""
	}
	var fs []string
	for p, e := range snapshot(s.dir + "/try") {
		if e.mode.IsRegular() {
			fs = append(fs, p)
		}
	}
	os.RemoveAll(s.dir + "/try")
	if len(fs) == 0 {
		return ""
	}
	sort.Strings(fs)
	return zs.Pick(s.r, fs)
}

var faults = map[string]faultFn{
	"missing source": func(c *check, s *sandbox) bool {
		s.srcs = append([]string{}, s.files...)
		i := s.r.N(len(s.srcs) + 1)
		s.srcs = append(s.srcs[:i:i], append([]string{s.dir + "/" + zs.Pick(s.r, []string{"gone.zs", "no/such/dir", "in/gone.zs"})}, s.srcs[i:]...)...)
		return true
	},
	"dangling link": func(c *check, s *sandbox) bool {
		must(os.Symlink(s.dir+"/nowhere", s.in+"/"+zs.Pick(s.r, []string{"aaaa_link.zs", "zzzz_link.zserio"})))
		return true
	},
	"unreadable file": func(c *check, s *sandbox) bool {
		s.uid = true
		must(os.Chmod(zs.Pick(s.r, s.files), 0))
		return true
	},
	"unreadable directory": func(c *check, s *sandbox) bool {
		s.uid = true
		put(s.in+"/secret/x.zs", "package secret;\n")
		must(os.Chmod(s.in+"/secret", 0))
		return true
	},
	"output not writable": func(c *check, s *sandbox) bool {
		s.uid = true
		d := s.out
		if s.r.P(.5) {
			d = filepath.Join(s.out, rig.PkgPath(s.anyPkg().Name))
		}
		must(os.MkdirAll(d, 0o755))
		for p := d; p != s.dir; p = path.Dir(p) {
			must(os.Chmod(p, 0o555))
		}
		return true
	},
	"output is a file": func(c *check, s *sandbox) bool {
		put(s.out, "a file")
		return true
	},
	"package directory is a file": func(c *check, s *sandbox) bool {
		parts := strings.Split(rig.PkgPath(s.anyPkg().Name), "/")
		put(filepath.Join(s.out, filepath.Join(parts[:1+s.r.N(len(parts))]...)), "a file")
		return true
	},
	"target is a directory": func(c *check, s *sandbox) bool {
		t := c.aTarget(s)
		if t == "" {
			return false
		}
		must(os.MkdirAll(filepath.Join(s.out, t, "x"), 0o755))
		return true
	},
	"target not writable": func(c *check, s *sandbox) bool {
		t := c.aTarget(s)
		if t == "" {
			return false
		}
		s.uid = true
		put(filepath.Join(s.out, t), "package old\n")
		must(os.Chmod(filepath.Join(s.out, t), 0o444))
		must(os.Chown(filepath.Join(s.out, t), 0, 0))
		return os.Getuid() == 0
	},
	"full standard output": func(c *check, s *sandbox) bool {
		s.outArg = "-"
		s.opts = append(s.opts, "--only", s.anyPkg().Name)
		s.wrap = []string{"/bin/sh", "-c", `exec "$0" "$@" >/dev/full`}
		return true
	},
	"file size limit": func(c *check, s *sandbox) bool {
		t := c.aTarget(s)
		if t == "" {
			return false
		}
		// find how large the files get
		save := s.outArg
		s.outArg = s.dir + "/try"
		c.runBox(s)
		s.outArg = save
		var sizes []int
		for _, e := range snapshot(s.dir + "/try") {
			if e.mode.IsRegular() {
				sizes = append(sizes, len(e.data))
			}
		}
		os.RemoveAll(s.dir + "/try")
		sort.Ints(sizes)
		lim := sizes[len(sizes)-1] - 1
		if s.r.P(.6) {
			lim = s.r.N(lim + 1)
		}
		s.wrap = []string{"/usr/bin/prlimit", fmt.Sprintf("--fsize=%d", lim)}
		return true
	},
	"unknown package": func(c *check, s *sandbox) bool {
		p := s.anyPkg().Name
		n := zs.Pick(s.r, []string{"nope", p + ".x", "x" + p, p + "."})
		for _, q := range s.x.Schema.Pkgs {
			if q.Name == n {
				return false
			}
		}
		if s.r.P(.3) {
			s.outArg = "-"
		}
		s.opts = append(s.opts, "--only", n)
		return true
	},
	"no sources": func(c *check, s *sandbox) bool {
		s.srcs = nil
		return true
	},
	"no output": func(c *check, s *sandbox) bool {
		s.outArg = ""
		return true
	},
	"limit too short": func(c *check, s *sandbox) bool {
		n := 0
		for _, p := range s.x.Schema.Pkgs {
			n = max(n, len(path.Join(s.outArg, rig.PkgPath(p.Name))))
		}
		s.limit = 1 + s.r.N(n+4) // not even one letter fits
		return true
	},
	"broken file": func(c *check, s *sandbox) bool {
		put(s.in+"/"+zs.Pick(s.r, []string{"aa.zs", "sub/zz.zserio", "mm/mm.zs"}), zs.Pick(s.r, []string{"package broken;\nstruct {", "this is no schema", "package broken;\nstruct X { Unknown x; };\n"}))
		return true
	},
}

// mayFail are preparations after which a run may fail, but must not harm what
// is elsewhere.
var mayFail = map[string]bool{"target is a link": true, "target not writable": true}

func init() {
	faults["target is a link"] = func(c *check, s *sandbox) bool {
		t := c.aTarget(s)
		if t == "" {
			return false
		}
		put(s.dir+"/other/precious", "precious\n")
		f := filepath.Join(s.out, t)
		must(os.MkdirAll(filepath.Dir(f), 0o755))
		must(os.Symlink(zs.Pick(s.r, []string{s.dir + "/other/precious", s.dir + "/other/created"}), f))
		return true
	}
}

func (c *check) faultCase(s *sandbox, f faultFn) (kind, msg string) {
	s.limit = -1
	if !f(c, s) {
		return "", ""
	}
	if s.uid {
		if os.Getuid() == 0 {
			if !c.nobody() {
				return "", ""
			}
			// everything but the prepared modes belongs to nobody
			filepath.WalkDir(s.dir, func(p string, d os.DirEntry, err error) error {
				if err == nil {
					if st, e := os.Lstat(p); e == nil && st.Mode().Perm() != 0o444 {
						os.Lchown(p, 65534, 65534)
					}
				}
				return nil
			})
			s.wrap = asNobody
		}
	}
	before := snapshot(s.dir, s.out)
	res, args := c.runBox(s)
	if d := diffSnap(before, snapshot(s.dir, s.out)); d != "" {
		return "elsewhere", fmt.Sprintf("something changed outside the output directory:\n%s\n%s", d, runText(res, args))
	}
	if res.Code == 0 && !mayFail[s.x.Scenario] {
		return "success", "the compiler reports success though it can not have succeeded\n" + runText(res, args)
	}
	if res.Timeout {
		return "hang", "the compiler does not end\n" + runText(res, args)
	}
	if res.Code != 0 && strings.TrimSpace(res.Err) == "" && s.x.Scenario != "full standard output" {
		return "silent", "the compiler fails without a message\n" + runText(res, args)
	}
	return "", ""
}

var asNobody = []string{"/usr/bin/setpriv", "--reuid=65534", "--regid=65534", "--clear-groups", "--inh-caps=-all"}

var nobodyOnce struct {
	sync.Once
	ok bool
}

// nobody tells whether the compiler can run without privileges.
func (c *check) nobody() bool {
	nobodyOnce.Do(func() {
		must(os.Chmod(c.rig.Work, 0o711))
		a := append(append([]string{}, asNobody...), c.rig.CLI, "--help")
		nobodyOnce.ok = c.rig.Run("/", time.Minute, c.cliEnv("/"), a[0], a[1:]...).Code == 0
		if !nobodyOnce.ok {
			c.assume = append(c.assume, "the compiler can not be run without privileges here: scenarios of unreadable and unwritable files are left out")
		}
	})
	return nobodyOnce.ok
}

func planC16(c *check) {
	c.rule = "Random schemas, and schemas whose names clash as file names, are long or mean something to the Go tools, are compiled in scratch trees with sources and output given in many ways (files, directories, relative paths, hidden and foreign files among them, existing output). The tree is compared with a model: one file per declared type, one for constants, in the directory of its package, within --max-path-length, buildable by the Go tools, nothing changed elsewhere; --only and standard output against the full run. Faults (missing, unreadable or broken sources, output that is not writable, full devices, size limits, unknown packages, too short limits) must give a non-zero status and leave everything else as it was. A case is one run with its checks. Non-trivial: distinct (schema, scenario, seed) with at least one declared type."
	c.needCLI()
	var names []string
	for n := range faults {
		names = append(names, n)
	}
	sort.Strings(names)
	n := c.pick(2600, 16000)
	var mu sync.Mutex
	var found []*Replay
	seen := map[uint64]bool{}
	c.rig.Each(n, func(i int) {
		mu.Lock()
		stop := len(found) > 40
		mu.Unlock()
		if stop {
			return
		}
		r := zs.NewRng(c.seed, 16, uint64(i))
		var s *zs.Schema
		if r.P(.7) {
			s = zs.Names(r)
		} else {
			p := zs.DefaultProf()
			if r.P(.5) {
				p.Tmpl = 0
			}
			p.MaxPkgs = 5
			s = zs.Generate(r, p)
		}
		x := &CLICase{Schema: s, Seed: r.U64()}
		switch i % 8 {
		case 0, 1, 2:
			x.Scenario = "all"
		case 3:
			x.Scenario = "only"
		case 4:
			x.Scenario = "stdout"
		default:
			x.Scenario = names[(i/8*3+i%8-5)%len(names)]
		}
		rp := c.runCLI(&Replay{Property: c.id, CLI: x})
		mu.Lock()
		defer mu.Unlock()
		c.evals++
		c.stats["scenario "+x.Scenario]++
		nd := 0
		for _, p := range s.Pkgs {
			nd += len(p.Decls)
		}
		if nd > 0 {
			h := fnv.New64a()
			fmt.Fprint(h, x.Scenario, x.Seed, s.Text())
			seen[h.Sum64()] = true
		}
		if len(c.samples) < 4 && i%7 == 0 {
			c.samples = append(c.samples, map[string]any{"scenario": x.Scenario, "schema": clip(s.Text(), 1000)})
		}
		if rp != nil {
			found = append(found, rp)
		}
	})
	c.nontriv = len(seen)
	c.reportCLI(found, func(r *Replay) *Replay {
		return c.shrinkSchema(r, 60*time.Second, func(s *zs.Schema) bool { return c.accepts(s) })
	})
}
