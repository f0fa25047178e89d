// Package rig builds go-zserio from /repo, generates code for schemas,
// compiles it together with the driver and runs it.
package rig

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"zsverif/zs"
)

// Rig is a scratch directory with a compiler built from the repository.
type Rig struct {
	Repo, Harness, Work string
	CLI                 string
	Race                bool
	Par                 int
	n                   int
	Log                 func(string, ...any)
}

// New makes a rig.
func New(repo, harness string) (*Rig, error) {
	w, err := os.MkdirTemp("", "zscheck-")
	if err != nil {
		return nil, err
	}
	r := &Rig{Repo: repo, Harness: harness, Work: w, Par: 8, Log: func(string, ...any) {}}
	return r, nil
}

// Close removes the scratch directory.
func (r *Rig) Close() {
	if strings.Contains(r.Work, "zscheck-") {
		os.RemoveAll(r.Work)
	}
}

// GoRoot is the toolchain that builds the repository.
const GoRoot = "/opt/veriftools/go1.24.13"

// Env is the environment of the Go tool.
func (r *Rig) Env(extra ...string) []string {
	root := GoRoot
	cgo := "0"
	if r.Race {
		cgo = "1"
	}
	home := os.Getenv("HOME")
	if home == "" {
		home = "/root"
	}
	cache := os.Getenv("GOCACHE")
	if cache == "" {
		cache = home + "/.cache/go-build"
	}
	return append([]string{"PATH=" + root + "/bin:/usr/local/bin:/usr/bin:/bin", "GOROOT=" + root, "GOTOOLCHAIN=local", "GOPROXY=off",
		"GOSUMDB=off", "GOENV=off", "GOWORK=off", "GOFLAGS=-mod=mod", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "CGO_ENABLED=" + cgo,
		"HOME=" + home, "GOCACHE=" + cache, "LC_ALL=C.UTF-8", "TMPDIR=" + os.TempDir()}, extra...)
}

// Result of a command.
type Result struct {
	Out, Err string
	Code     int
	Timeout  bool
	Wall     time.Duration
}

// Panicked tells whether a Go program crashed.
func (x *Result) Panicked() bool {
	return strings.Contains(x.Err, "goroutine ") && (strings.Contains(x.Err, "panic:") || strings.Contains(x.Err, "fatal error:")) || strings.Contains(x.Err, "[signal SIG")
}

// Run runs a command.
func (r *Rig) Run(dir string, timeout time.Duration, env []string, name string, args ...string) *Result {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	if name == "go" {
		name = GoRoot + "/bin/go"
	}
	c := exec.CommandContext(ctx, name, args...)
	c.Dir = dir
	if env == nil {
		env = r.Env()
	}
	c.Env = env
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
	c.WaitDelay = 5 * time.Second
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	t := time.Now()
	err := c.Run()
	res := &Result{Out: o.String(), Err: e.String(), Wall: time.Since(t), Timeout: ctx.Err() != nil}
	if err != nil {
		res.Code = -1
		var x *exec.ExitError
		if errors.As(err, &x) {
			res.Code = x.ExitCode()
		} else {
			res.Err += err.Error()
		}
	}
	return res
}

// BuildCLI compiles the command from the repository's working tree.
func (r *Rig) BuildCLI() error {
	r.CLI = filepath.Join(r.Work, "go-zserio")
	args := []string{"build", "-o", r.CLI, "./cmd/go-zserio"}
	env := r.Env("CGO_ENABLED=0")
	res := r.Run(r.Repo, 10*time.Minute, append(env, "GOFLAGS=-mod=readonly"), "go", args...)
	if res.Code != 0 {
		return fmt.Errorf("go-zserio does not build: %s", tail(res.Err, 2000))
	}
	return nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// Unit is one schema on its way through the compiler.
type Unit struct {
	Key    string
	Schema *zs.Schema
	SQL    bool
	// Full registers constants, enums and everything that is declared.
	Full    bool
	GenErr  string // the compiler refused
	GoErr   string // the generated code does not compile
	Src     string
	Files   []string
	Panic   bool
	Timeout bool
}

// OK tells whether the code can be run.
func (u *Unit) OK() bool { return u.GenErr == "" && u.GoErr == "" }

// WriteSchema writes schema files below dir and lists them.
func WriteSchema(s *zs.Schema, dir string) ([]string, error) {
	var fs []string
	for _, p := range s.Pkgs {
		f := filepath.Join(dir, p.FileName())
		if err := os.MkdirAll(filepath.Dir(f), 0o755); err != nil {
			return nil, err
		}
		if err := os.WriteFile(f, []byte(p.String()), 0o644); err != nil {
			return nil, err
		}
		fs = append(fs, f)
	}
	return fs, nil
}

// Batch is a module with generated code of several schemas.
type Batch struct {
	R     *Rig
	Dir   string
	Units []*Unit
	Bin   string
}

// Each runs fn for 0..n-1 in parallel.
func (r *Rig) Each(n int, fn func(i int)) {
	sem := make(chan struct{}, r.Par)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			fn(i)
		}()
	}
	wg.Wait()
}

// Generate runs the compiler on every unit.
func (r *Rig) Generate(units []*Unit) (*Batch, error) {
	r.n++
	b := &Batch{R: r, Dir: filepath.Join(r.Work, fmt.Sprintf("b%d", r.n)), Units: units}
	if err := os.MkdirAll(filepath.Join(b.Dir, "gen"), 0o755); err != nil {
		return nil, err
	}
	var ferr error
	r.Each(len(units), func(i int) {
		u := units[i]
		u.Src = filepath.Join(b.Dir, "src", u.Key)
		fs, err := WriteSchema(u.Schema, u.Src)
		if err != nil {
			ferr = err
			return
		}
		u.Files = fs
		args := []string{"generate", "--out", filepath.Join(b.Dir, "gen", u.Key), "--rootpackage", "zsdrv/gen/" + u.Key}
		if u.SQL {
			args = append(args, "--sql")
		}
		args = append(args, u.Src)
		res := r.Run(b.Dir, 120*time.Second, nil, r.CLI, args...)
		if res.Code != 0 {
			u.GenErr = fmt.Sprintf("exit %d: %s", res.Code, lastLines(res.Err))
			u.Panic, u.Timeout = res.Panicked(), res.Timeout
		}
	})
	return b, ferr
}

var logNoise = regexp.MustCompile(`(?m)^.*(Parsing|Writing|Flags:|Usage:|      --|  -[a-z], --|Code generation).*\n`)

func lastLines(s string) string {
	return tail(strings.TrimSpace(logNoise.ReplaceAllString(s, "")), 1500)
}

// GoName is the Go name of a zserio name.
func GoName(s string) string { return strings.Title(s) }

// PkgPath is the directory of a package below the output.
func PkgPath(pkg string) string { return strings.ToLower(strings.ReplaceAll(pkg, ".", "/")) }

// ItemName is the Go name of an enum item without the enum's name.
func ItemName(it string) string {
	var b strings.Builder
	up := true
	for _, c := range strings.ToLower(it) {
		switch {
		case c == '_':
			up = true
		case up && c >= 'a' && c <= 'z':
			b.WriteRune(c - 'a' + 'A')
			up = false
		default:
			b.WriteRune(c)
			up = c >= '0' && c <= '9'
		}
	}
	return b.String()
}

func (u *Unit) registry() string {
	var b strings.Builder
	w := zs.NewWorld(u.Schema)
	alias := map[string]string{}
	used := map[string]bool{}
	for i, p := range u.Schema.Pkgs {
		alias[p.Name] = fmt.Sprintf("p%d", i)
	}
	name := func(ref string) string {
		p, n := zs.P(ref)
		used[p] = true
		return alias[p] + "." + GoName(n)
	}
	body := func(f string, a ...any) { fmt.Fprintf(&b, f+"\n", a...) }
	body("func init() {\n\te := &driver.Entry{New: map[string]func() any{}, Enums: map[string]*driver.EnumEntry{}, Consts: map[string]any{}, Items: map[string]map[string]any{}}")
	for _, root := range u.Schema.Roots {
		body("\te.New[%q] = func() any { return new(%s) }", root, name(root))
	}
	if u.Full {
		for _, p := range u.Schema.Pkgs {
			for _, d := range p.Decls {
				if len(d.Tmpl) > 0 {
					continue
				}
				n := ""
				if d.Kind != "const" || true {
					n = name(d.Ref())
				}
				switch d.Kind {
				case "const":
					body("\te.Consts[%q] = %s", d.Ref(), n)
				case "subtype":
					body("\t{ var x %s; _ = x }", n)
				case "enum":
					body("\te.Enums[%q] = &driver.EnumEntry{New: func() any { return new(%s) }, Values: func() any { return %sValues() }, Strings: %sStrings, FromStr: func(s string) (any, error) { return %sString(s) }}", d.Ref(), n, n, n, n)
					body("\te.Items[%q] = map[string]any{", d.Ref())
					for _, it := range d.Items {
						body("\t\t%q: %s%s,", it.Name, n, ItemName(it.Name))
					}
					body("\t}")
				case "bitmask":
					body("\te.Items[%q] = map[string]any{", d.Ref())
					for _, it := range d.Items {
						body("\t\t%q: %s%s,", it.Name, n, GoName(it.Name))
					}
					body("\t}")
				case "struct", "choice", "union", "instantiate":
					body("\t{\n\t\tvar x %s\n\t\tvar _ zserio.ZserioType = &x", n)
					in := w.Inst(d.Ref(), nil)
					for i, f := range in.D.Fields {
						rt := w.F(in, i)
						gt := simpleGo(rt)
						if f.Array != zs.NoArray && gt != "" {
							gt = "[]" + gt
						}
						if f.Optional && gt != "" {
							gt = "*" + gt
						}
						if gt != "" {
							body("\t\t{ var y *%s = &x.%s; _ = y }", gt, GoName(f.Name))
						} else {
							body("\t\t_ = x.%s", GoName(f.Name))
						}
						if in.D.Kind == "union" {
							body("\t\t_ = %sChoice%s", n, GoName(f.Name))
						}
					}
					for _, f := range in.D.Params {
						body("\t\t_ = x.%s", GoName(f.Name))
					}
					for _, f := range in.D.Funcs {
						body("\t\t_ = x.%s", GoName(f.Name))
					}
					if in.D.Kind == "union" {
						body("\t\t_ = %sChoiceUndefined", n)
					}
					body("\t}")
				}
			}
		}
	}
	body("\tdriver.Register(%q, e)\n}", u.Key)
	var h strings.Builder
	h.WriteString("package zzreg\n\nimport (\n\t\"zsverif/driver\"\n")
	if u.Full {
		h.WriteString("\tzserio \"github.com/woven-planet/go-zserio\"\n")
	}
	for _, p := range u.Schema.Pkgs {
		if used[p.Name] {
			fmt.Fprintf(&h, "\t%s %q\n", alias[p.Name], "zsdrv/gen/"+u.Key+"/"+PkgPath(p.Name))
		} else {
			fmt.Fprintf(&h, "\t_ %q\n", "zsdrv/gen/"+u.Key+"/"+PkgPath(p.Name))
		}
	}
	h.WriteString(")\n\n")
	if u.Full {
		h.WriteString("var _ zserio.Marshaler\n\n")
	}
	return h.String() + b.String()
}

// simpleGo is the Go type of a plain builtin; "" if it is not fixed.
func simpleGo(rt *zs.RT) string {
	switch rt.K {
	case "u", "i":
		if rt.Name == "bit" || rt.Name == "int" {
			return ""
		}
		return rt.Name
	case "bool", "string":
		return rt.K
	case "f32":
		return "float32"
	case "f64":
		return "float64"
	}
	return ""
}

var compileHead = regexp.MustCompile(`^# (\S+)`)

// Build compiles the generated code and links the driver.
func (b *Batch) Build() error {
	r := b.R
	gomod := fmt.Sprintf("module zsdrv\n\ngo 1.24.4\n\nrequire (\n\tgithub.com/woven-planet/go-zserio v0.0.0\n\tzsverif v0.0.0\n)\n\nreplace github.com/woven-planet/go-zserio => %s\n\nreplace zsverif => %s\n", r.Repo, r.Harness)
	if err := os.WriteFile(filepath.Join(b.Dir, "go.mod"), []byte(gomod), 0o644); err != nil {
		return err
	}
	s1, err := os.ReadFile(filepath.Join(r.Repo, "go.sum"))
	if err != nil {
		return err
	}
	s2, err := os.ReadFile(filepath.Join(r.Harness, "go.sum"))
	if err != nil {
		return err
	}
	lines := map[string]bool{}
	var sum []string
	for _, l := range strings.Split(string(s1)+"\n"+string(s2), "\n") {
		if l != "" && !lines[l] {
			lines[l] = true
			sum = append(sum, l)
		}
	}
	if err := os.WriteFile(filepath.Join(b.Dir, "go.sum"), []byte(strings.Join(sum, "\n")+"\n"), 0o644); err != nil {
		return err
	}
	byKey := map[string]*Unit{}
	for _, u := range b.Units {
		if u.GenErr != "" {
			continue
		}
		byKey[u.Key] = u
		dir := filepath.Join(b.Dir, "gen", u.Key, "zzreg")
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dir, "reg.go"), []byte(u.registry()), 0o644); err != nil {
			return err
		}
	}
	if len(byKey) == 0 {
		return nil
	}
	flags := []string{"build", "-trimpath"}
	if r.Race {
		flags = append(flags, "-race")
	}
	for round := 0; round < 4; round++ {
		var main strings.Builder
		main.WriteString("package main\n\nimport (\n\t\"zsverif/driver\"\n")
		for _, u := range b.Units {
			if u.OK() {
				fmt.Fprintf(&main, "\t_ \"zsdrv/gen/%s/zzreg\"\n", u.Key)
			}
		}
		main.WriteString(")\n\nfunc main() { driver.Main() }\n")
		if err := os.WriteFile(filepath.Join(b.Dir, "main.go"), []byte(main.String()), 0o644); err != nil {
			return err
		}
		bin := filepath.Join(b.Dir, "driver")
		args := append(append([]string(nil), flags...), "-o", bin, ".")
		res := r.Run(b.Dir, 12*time.Minute, nil, "go", args...)
		if res.Code == 0 {
			b.Bin = bin
			return nil
		}
		if res.Timeout {
			return fmt.Errorf("go build takes too long")
		}
		for _, m := range []string{"no space left", "cannot allocate memory", "signal: killed", "too many open files"} {
			if strings.Contains(res.Err, m) {
				return fmt.Errorf("go build: %s", m)
			}
		}
		// Which schema is to blame?
		cur := ""
		blamed := 0
		msgs := map[string][]string{}
		for _, l := range strings.Split(res.Err, "\n") {
			if m := compileHead.FindStringSubmatch(l); m != nil {
				cur = m[1]
				continue
			}
			k := unitOf(cur)
			if k == "" {
				if i := strings.Index(l, "gen/"); i >= 0 {
					k = unitOf("zsdrv/" + l[i:])
				}
			}
			if k != "" && strings.TrimSpace(l) != "" {
				msgs[k] = append(msgs[k], l)
			}
		}
		for k, m := range msgs {
			if u := byKey[k]; u != nil && u.GoErr == "" {
				if len(m) > 8 {
					m = m[:8]
				}
				u.GoErr = strings.Join(m, "\n")
				blamed++
			}
		}
		if blamed == 0 {
			return fmt.Errorf("go build: %s", tail(res.Err, 3000))
		}
		any := false
		for _, u := range b.Units {
			any = any || u.OK()
		}
		if !any {
			return nil
		}
	}
	return fmt.Errorf("go build keeps failing")
}

func unitOf(path string) string {
	p := strings.Split(path, "/")
	if len(p) > 2 && p[0] == "zsdrv" && p[1] == "gen" {
		return p[2]
	}
	return ""
}

// Outcome of driver runs.
type Outcome struct {
	Viols   []*zs.Line
	Evals   int
	Nontriv int
	Stats   map[string]int
	Samples []map[string]any
	Errors  []string // harness problems
}

// Drive runs the driver over the cases in parallel processes.
func (b *Batch) Drive(job *zs.Job, cases []*zs.SCase, timeout time.Duration, extraEnv ...string) *Outcome {
	r := b.R
	out := &Outcome{Stats: map[string]int{}}
	if len(cases) == 0 {
		return out
	}
	n := r.Par
	if n > len(cases) {
		n = len(cases)
	}
	var mu sync.Mutex
	b.R.n++
	id := b.R.n
	r.Each(n, func(i int) {
		var mine []*zs.SCase
		for k := i; k < len(cases); k += n {
			mine = append(mine, cases[k])
		}
		for try := 0; len(mine) > 0 && try < 6; try++ {
			j := *job
			j.Cases = mine
			if j.Samples == 0 {
				j.Samples = 2
			}
			jf := filepath.Join(b.Dir, fmt.Sprintf("job-%d-%d-%d.json", id, i, try))
			of := strings.TrimSuffix(jf, ".json") + ".out"
			raw, err := json.Marshal(&j)
			if err == nil {
				err = os.WriteFile(jf, raw, 0o644)
			}
			if err != nil {
				mu.Lock()
				out.Errors = append(out.Errors, err.Error())
				mu.Unlock()
				return
			}
			env := r.Env(append([]string{"GOMEMLIMIT=3GiB", "GOTRACEBACK=single"}, extraEnv...)...)
			res := r.Run(b.Dir, timeout, env, b.Bin, jf, of)
			lines, done := readLines(of)
			mu.Lock()
			for _, l := range lines {
				if l.T == "viol" {
					out.Viols = append(out.Viols, l)
				}
			}
			if done != nil {
				out.Evals += done.Evals
				out.Nontriv += done.Nontriv
				for k, v := range done.Stats {
					out.Stats[k] += v
				}
				if len(out.Samples) < 12 {
					out.Samples = append(out.Samples, done.Samples...)
				}
			}
			mu.Unlock()
			if done != nil && !strings.Contains(res.Err, "WARNING: DATA RACE") {
				return
			}
			cur, _ := os.ReadFile(of + ".cur")
			f := strings.Fields(string(cur))
			var key, root string
			idx := 0
			if len(f) == 3 {
				key, root = f[0], f[1]
				fmt.Sscan(f[2], &idx)
			}
			mu.Lock()
			switch {
			case strings.Contains(res.Err, "WARNING: DATA RACE"):
				i := strings.Index(res.Err, "WARNING: DATA RACE")
				out.Viols = append(out.Viols, &zs.Line{T: "viol", Key: key, Root: "*", Kind: "race", Msg: head(res.Err[i:], 3000)})
			case res.Code == 3 || key == "":
				out.Errors = append(out.Errors, fmt.Sprintf("driver: exit %d: %s", res.Code, tail(res.Err, 1500)))
			case res.Code == 9: // nothing is claimed about the input
				out.Stats["ended-early"]++
			case res.Code == 8:
				out.Viols = append(out.Viols, &zs.Line{T: "viol", Key: key, Root: root, Idx: idx, Kind: "memory", Msg: "the code under test uses up the memory\n" + head(res.Err, 3000)})
			case res.Code == 7:
				out.Viols = append(out.Viols, &zs.Line{T: "viol", Key: key, Root: root, Idx: idx, Kind: "hang", Msg: "the code under test does not return\n" + head(res.Err, 3000)})
			case strings.Contains(res.Err, "stack overflow") || strings.Contains(res.Err, "fatal error:") || strings.Contains(res.Err, "panic:"):
				out.Viols = append(out.Viols, &zs.Line{T: "viol", Key: key, Root: root, Idx: idx, Kind: "crash", Msg: "the process crashed\n" + head(res.Err, 3000)})
			case res.Timeout:
				out.Errors = append(out.Errors, fmt.Sprintf("driver: time limit in %s %s %d", key, root, idx))
			default:
				out.Errors = append(out.Errors, fmt.Sprintf("driver: exit %d in %s %s %d: %s", res.Code, key, root, idx, tail(res.Err, 1500)))
			}
			mu.Unlock()
			if res.Timeout || key == "" || done != nil {
				return
			}
			// Go on behind the schema that crashed.
			for k, c := range mine {
				if c.Key == key {
					mine = mine[k+1:]
					break
				}
			}
		}
	})
	sort.Slice(out.Viols, func(i, j int) bool {
		a, b := out.Viols[i], out.Viols[j]
		if a.Key != b.Key {
			return a.Key < b.Key
		}
		return a.Root < b.Root
	})
	return out
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func readLines(f string) (lines []*zs.Line, done *zs.Line) {
	raw, err := os.ReadFile(f)
	if err != nil {
		return nil, nil
	}
	for _, s := range strings.Split(string(raw), "\n") {
		if s == "" {
			continue
		}
		l := &zs.Line{}
		if json.Unmarshal([]byte(s), l) != nil {
			continue
		}
		if l.T == "done" {
			done = l
		} else {
			lines = append(lines, l)
		}
	}
	return lines, done
}
