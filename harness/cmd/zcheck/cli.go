package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"zsverif/rig"
	"zsverif/zs"
)

// CLICase is a saved run (or several) of the compiler. What is done with the
// files follows from the scenario and the seed.
type CLICase struct {
	Scenario string     `json:"scenario"`
	Seed     uint64     `json:"seed,omitempty"`
	Schema   *zs.Schema `json:"schema,omitempty"`
	Files    []CLIFile  `json:"files,omitempty"`
	Args     []string   `json:"args,omitempty"`
	// Must is set if the compiler has to refuse the input; Why tells why.
	Must bool   `json:"must,omitempty"`
	Why  string `json:"why,omitempty"`
	// Keep is the declaration that is wrong on its own.
	Keep string `json:"keep,omitempty"`
}

// CLIFile is one schema file.
type CLIFile struct {
	Name string `json:"name"`
	Text string `json:"text,omitempty"`
	Raw  []byte `json:"raw,omitempty"` // instead of the text if that is not UTF-8
}

func (f *CLIFile) content() []byte {
	if f.Raw != nil {
		return f.Raw
	}
	return []byte(f.Text)
}

func (x *CLICase) describe() string {
	var b strings.Builder
	fmt.Fprintf(&b, "scenario %s, seed %d", x.Scenario, x.Seed)
	if x.Why != "" {
		fmt.Fprintf(&b, " (%s)", x.Why)
	}
	b.WriteByte('\n')
	if x.Schema != nil {
		b.WriteString(x.Schema.Text())
	}
	for _, f := range x.Files {
		fmt.Fprintf(&b, "// file %s\n%s\n", f.Name, clip(fmt.Sprintf("%s", f.content()), 3000))
	}
	return b.String()
}

// runCLI runs a saved case.
func (c *check) runCLI(rp *Replay) *Replay {
	c.needCLI()
	x := rp.CLI
	var kind, msg string
	switch c.id {
	case "C12":
		kind, msg = c.detCase(x)
	case "C15":
		kind, msg = c.rejectCase(x)
	case "C16":
		kind, msg = c.filesCase(x)
	default:
		die("no command-line cases for %s", c.id)
	}
	if kind == "" {
		return nil
	}
	out := *rp
	out.Property, out.Kind, out.Msg = c.id, kind, msg
	return &out
}

func (c *check) needCLI() {
	if c.rig.CLI == "" {
		if err := c.rig.BuildCLI(); err != nil {
			die("%v", err)
		}
	}
}

var scratchN struct {
	sync.Mutex
	n int
}

// scratch makes a directory whose path always has the same length.
func (c *check) scratch() string {
	scratchN.Lock()
	scratchN.n++
	d := filepath.Join(c.rig.Work, fmt.Sprintf("s%07d", scratchN.n))
	scratchN.Unlock()
	if err := os.MkdirAll(d, 0o755); err != nil {
		die("%v", err)
	}
	return d
}

// drop removes a scratch directory.
func (c *check) drop(d string) {
	if !strings.HasPrefix(d, c.rig.Work+"/s") {
		die("drop %s", d)
	}
	filepath.WalkDir(d, func(p string, e os.DirEntry, err error) error {
		if err == nil && e.IsDir() {
			os.Chmod(p, 0o755)
		}
		return nil
	})
	os.RemoveAll(d)
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func put(f, text string) {
	must(os.MkdirAll(filepath.Dir(f), 0o755))
	must(os.WriteFile(f, []byte(text), 0o644))
}

// entry of a snapshot.
type entry struct {
	mode os.FileMode
	data string // content or link target
}

func (e entry) String() string {
	switch {
	case e.mode.IsDir():
		return "directory"
	case e.mode&os.ModeSymlink != 0:
		return "link to " + e.data
	}
	return fmt.Sprintf("file of %d bytes", len(e.data))
}

// snapshot lists everything below a directory, but not below skip.
func snapshot(dir string, skip ...string) map[string]entry {
	m := map[string]entry{}
	if _, err := os.Lstat(dir); os.IsNotExist(err) {
		return m
	}
	filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		for _, s := range skip {
			if p == s {
				if d != nil && d.IsDir() {
					return filepath.SkipDir
				}
				return nil
			}
		}
		rel, _ := filepath.Rel(dir, p)
		if err != nil {
			m[rel] = entry{0, "error " + err.Error()}
			return nil
		}
		e := entry{mode: d.Type()}
		switch {
		case d.Type()&os.ModeSymlink != 0:
			e.data, _ = os.Readlink(p)
		case d.Type().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				b = []byte("error " + err.Error())
			}
			e.data = string(b)
		}
		m[rel] = e
		return nil
	})
	return m
}

// diffSnap compares snapshots; "" if they are the same.
func diffSnap(was, is map[string]entry) string {
	var l []string
	for p, a := range was {
		b, ok := is[p]
		switch {
		case !ok:
			l = append(l, fmt.Sprintf("%s (%v) is gone", p, a))
		case a != b && a.mode == b.mode && a.mode.IsRegular():
			l = append(l, fmt.Sprintf("%s has other content:\n%s", p, firstDiff(a.data, b.data)))
		case a != b:
			l = append(l, fmt.Sprintf("%s was a %v, is a %v", p, a, b))
		}
	}
	for p, b := range is {
		if _, ok := was[p]; !ok {
			l = append(l, fmt.Sprintf("%s (%v) is new", p, b))
		}
	}
	sort.Strings(l)
	if len(l) > 6 {
		l = append(l[:6], fmt.Sprintf("and %d more", len(l)-6))
	}
	return strings.Join(l, "\n")
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		p, q := "(end)", "(end)"
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("  line %d: %s\n      now: %s", i+1, clip(p, 200), clip(q, 200))
		}
	}
	return "  (no difference)"
}

// cliEnv is the environment of the compiler.
func (c *check) cliEnv(home string, extra ...string) []string {
	return append([]string{"PATH=/usr/local/bin:/usr/bin:/bin", "HOME=" + home, "TMPDIR=" + home, "LC_ALL=C.UTF-8"}, extra...)
}

func runText(res *rig.Result, args []string) string {
	return fmt.Sprintf("go-zserio %s\nexit status %d (timeout: %v)\n%s", strings.Join(args, " "), res.Code, res.Timeout, lastPart(res.Err))
}

// lastPart shortens output: the start and the end.
func lastPart(s string) string {
	s, _, _ = strings.Cut(s, "\nUsage:")
	if len(s) > 1500 {
		return s[:700] + "\n...\n" + s[len(s)-700:]
	}
	return s
}

// accepts tells whether the compiler takes a schema as it is.
func (c *check) accepts(s *zs.Schema) bool {
	d := c.scratch()
	defer c.drop(d)
	if _, err := rig.WriteSchema(s, d+"/in"); err != nil {
		die("%v", err)
	}
	return c.rig.Run(d, time.Minute, c.cliEnv(d), c.rig.CLI, "generate", "--out", d+"/o", "--rootpackage", "r/o", d+"/in").Code == 0
}

// removals proposes schemas with something less.
func removals(s *zs.Schema, keep string) []*zs.Schema {
	var out []*zs.Schema
	kp := ""
	if keep != "" {
		kp, _ = zs.P(keep)
	}
	for i := range s.Pkgs {
		if len(s.Pkgs) > 1 && (keep == "" || s.Pkgs[i].Name != kp) {
			t := s.Clone()
			t.Pkgs = append(t.Pkgs[:i:i], t.Pkgs[i+1:]...)
			out = append(out, t)
		}
	}
	for i, p := range s.Pkgs {
		for n := len(p.Decls) / 2; n >= 1; n /= 2 {
			for j := 0; j+n <= len(p.Decls); j += n {
				has := false
				for _, d := range p.Decls[j : j+n] {
					has = has || keep != "" && d.Ref() == keep
				}
				if has {
					continue
				}
				t := s.Clone()
				q := t.Pkgs[i]
				q.Decls = append(q.Decls[:j:j], q.Decls[j+n:]...)
				out = append(out, t)
			}
		}
		for j := range p.Imports {
			t := s.Clone()
			q := t.Pkgs[i]
			q.Imports = append(q.Imports[:j:j], q.Imports[j+1:]...)
			out = append(out, t)
		}
		for j, d := range p.Decls {
			if len(d.Funcs) > 0 {
				t := s.Clone()
				t.Pkgs[i].Decls[j].Funcs = nil
				out = append(out, t)
			}
			for k := range d.Fields {
				if len(d.Cases) == 0 && len(d.Fields) > 1 {
					t := s.Clone()
					e := t.Pkgs[i].Decls[j]
					e.Fields = append(e.Fields[:k:k], e.Fields[k+1:]...)
					out = append(out, t)
				}
			}
			for k := range d.Items {
				if len(d.Items) > 1 {
					t := s.Clone()
					e := t.Pkgs[i].Decls[j]
					e.Items = append(e.Items[:k:k], e.Items[k+1:]...)
					out = append(out, t)
				}
			}
		}
	}
	return out
}

// shrinkSchema makes the schema of a failing case smaller as long as it fails
// in the same way; ok says which schemas may be tried.
func (c *check) shrinkSchema(rp *Replay, budget time.Duration, ok func(s *zs.Schema) bool) *Replay {
	end := time.Now().Add(budget)
	best := rp
	for again := true; again && time.Now().Before(end); {
		again = false
		cands := removals(best.CLI.Schema, best.CLI.Keep)
		for lo := 0; lo < len(cands) && !again && time.Now().Before(end); lo += 8 {
			part := cands[lo:min(lo+8, len(cands))]
			res := make([]*Replay, len(part))
			c.rig.Each(len(part), func(i int) {
				if !ok(part[i]) {
					return
				}
				x := *best.CLI
				x.Schema = part[i]
				if r := c.runCLI(&Replay{Property: c.id, CLI: &x}); r != nil && r.Kind == best.Kind {
					res[i] = r
				}
			})
			for _, r := range res {
				if r != nil {
					best, again = r, true
					break
				}
			}
		}
	}
	return best
}

// report shrinks and keeps failures, one for each kind and scenario.
func (c *check) reportCLI(found []*Replay, shrink func(*Replay) *Replay) {
	seen := map[string]bool{}
	sort.SliceStable(found, func(i, j int) bool {
		size := func(r *Replay) int { return len(r.CLI.describe()) }
		return size(found[i]) < size(found[j])
	})
	for _, f := range found {
		k := f.Kind + "/" + f.CLI.Scenario
		if seen[k] && !c.explore {
			continue
		}
		seen[k] = true
		if len(c.viols) < 4 || c.explore && len(c.viols) < 30 {
			c.viols = append(c.viols, shrink(f))
		}
	}
}
