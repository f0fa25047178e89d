package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"zsverif/rig"
	"zsverif/zs"
)

// C12: the compiler is run several times on the same schema and everything
// it writes is compared.

func init() { plans["C12"] = planC12 }

var detVariants = []string{"again", "same place", "order", "moved", "flat", "dirty", "environment", "twice", "one by one"}

// det is what follows from a case: the options of its runs.
type det struct {
	opts   []string
	stdout bool
	abs    bool // the length of the output path matters
}

func detOptions(x *CLICase, dir string) det {
	r := zs.NewRng(x.Seed, 12)
	var d det
	for _, p := range x.Schema.Pkgs {
		for _, e := range p.Decls {
			// the default limit may apply
			d.abs = d.abs || len(e.Name)+len(p.Name) > 60
		}
	}
	if r.P(.5) {
		d.opts = append(d.opts, "--sql")
	}
	only := ""
	if r.P(.25) && len(x.Schema.Pkgs) > 0 {
		only = zs.Pick(r, x.Schema.Pkgs).Name
		d.opts = append(d.opts, "--only", only)
	}
	d.stdout = only != "" && r.P(.5)
	if !d.stdout && r.P(.3) {
		d.abs = true
		long := 0
		for _, p := range x.Schema.Pkgs {
			long = max(long, len(dir)+len("/out0/")+len(p.Name))
		}
		d.opts = append(d.opts, "--max-path-length", fmt.Sprint(long+13+r.N(20)))
	} else if r.P(.1) {
		d.opts = append(d.opts, "--max-path-length", "0")
	}
	return d
}

// detRun runs the compiler for a variant and returns what it wrote.
func (c *check) detRun(x *CLICase, dir, variant string, base map[string]entry) (tree map[string]entry, res *rig.Result, args []string, inputs string) {
	d := detOptions(x, dir)
	r := zs.NewRng(x.Seed, 13)
	for _, b := range []byte(variant) {
		r = zs.NewRng(r.U64(), uint64(b))
	}
	in, out, cwd := dir+"/in", dir+"/out0", dir
	env := c.cliEnv(dir)
	s := x.Schema
	switch variant {
	case "base", "same place":
	default:
		out = dir + "/out1"
		os.RemoveAll(out)
	}
	switch variant {
	case "moved":
		in = dir + "/elsewhere/deeper/than/before"
		cwd = in
	case "flat":
		in = dir + "/flat"
		s = s.Clone()
		perm := make([]int, len(s.Pkgs))
		for i := range perm {
			perm[i] = i
		}
		zs.Shuffle(r, perm)
		for i, p := range s.Pkgs {
			p.File = fmt.Sprintf("%c%d.%s", 'a'+perm[i], r.N(10), zs.Pick(r, []string{"zs", "zserio"}))
		}
	}
	files, err := rig.WriteSchema(s, in)
	must(err)
	paths := []string{in}
	outArg := out
	switch variant {
	case "order":
		paths = append([]string(nil), files...)
		zs.Shuffle(r, paths)
		env = append(env, "GOMAXPROCS=1")
	case "one by one":
		paths = append([]string(nil), files...)
		for i, j := 0, len(paths)-1; i < j; i, j = i+1, j-1 {
			paths[i], paths[j] = paths[j], paths[i]
		}
		env = append(env, "GOMAXPROCS=2")
	case "moved":
		paths = []string{"."}
		if !d.abs {
			outArg = "../../../../out1"
		}
	case "twice":
		paths = append([]string{in + "/"}, files...)
		zs.Shuffle(r, paths)
		env = append(env, "GOMAXPROCS=5")
	case "environment":
		env = c.cliEnv(dir+"/nohome", "GOMAXPROCS=3", "GOGC=5", "USER=somebody", "HOSTNAME=elsewhere", "TZ=Asia/Tokyo", "LANG=ja_JP.UTF-8", "LC_ALL=tr_TR.UTF-8")
		old := time.Date(1999, 1, 2, 3, 4, 5, 0, time.UTC)
		for _, f := range files {
			must(os.Chtimes(f, old, old))
		}
	case "dirty":
		for p, e := range base {
			if e.mode.IsRegular() && p != "-" {
				put(filepath.Join(out, p), zs.Pick(r, []string{"", "package broken\n", e.data + strings.Repeat("\n// more", 40)}))
			}
		}
	}
	if d.stdout {
		outArg = "-"
	}
	args = append([]string{"generate", "--out", outArg, "--rootpackage", "r/o"}, d.opts...)
	args = append(args, paths...)
	before := snapshot(in)
	res = c.rig.Run(cwd, 2*time.Minute, env, c.rig.CLI, args...)
	inputs = diffSnap(before, snapshot(in))
	tree = snapshot(out)
	if d.stdout {
		tree["-"] = entry{0, res.Out}
	}
	return
}

// detCompare runs a variant against what the first run wrote.
func (c *check) detCompare(x *CLICase, dir, variant string, base map[string]entry) (kind, msg string) {
	tree, res, args, inputs := c.detRun(x, dir, variant, base)
	if res.Code != 0 {
		return "refused", fmt.Sprintf("the compiler fails when it is run in another way (%s)\n%s", variant, runText(res, args))
	}
	if inputs != "" {
		return "inputs", "the compiler changed its inputs: " + inputs
	}
	if d := diffSnap(base, tree); d != "" {
		return "different", fmt.Sprintf("another run (%s) wrote something else:\n%s\n%s", variant, d, runText(res, args))
	}
	return "", ""
}

// detCase runs a saved case: scenario "all" or one variant.
func (c *check) detCase(x *CLICase) (kind, msg string) {
	dir := c.scratch()
	defer c.drop(dir)
	base, res, args, inputs := c.detRun(x, dir, "base", nil)
	if res.Code != 0 {
		return "", ""
	}
	if inputs != "" {
		return "inputs", "the compiler changed its inputs: " + inputs + "\n" + runText(res, args)
	}
	if x.Scenario == "again" {
		time.Sleep(1100 * time.Millisecond)
	}
	// What differs may differ only now and then.
	for i := 0; i < 12; i++ {
		if kind, msg = c.detCompare(x, dir, x.Scenario, base); kind != "" {
			return
		}
	}
	return
}

func planC12(c *check) {
	c.rule = "Random schemas (with templates, several packages, and with names that clash as file names) are compiled once and then again in other ways: later; to the same place; with the files in other orders, one by one, twice, from another directory, by relative paths, in one directory under other names; over existing longer or broken files; with other environment, time stamps and numbers of CPUs. Options (--sql, --only, standard output, --max-path-length) are drawn per schema. A case is one further run: everything written must be byte-identical, and the inputs unchanged. Non-trivial: distinct (schema, variant) that wrote at least two files."
	c.needCLI()
	n := c.pick(700, 5000)
	var mu sync.Mutex
	var found []*Replay
	texts := map[uint64]bool{}
	type state struct {
		x    *CLICase
		dir  string
		base map[string]entry
	}
	const batch = 200
	for lo := 0; lo < n && len(found) < 12; lo += batch {
		m := min(batch, n-lo)
		st := make([]*state, m)
		c.rig.Each(m, func(i int) {
			r := zs.NewRng(c.seed, 12, uint64(lo+i))
			var s *zs.Schema
			if (lo+i)%4 == 3 {
				s = zs.Names(r)
			} else if (lo+i)%5 == 2 {
				s = zs.Confusable(r)
			} else {
				p := zs.DefaultProf()
				if r.P(.5) {
					p.Tmpl = .5
				}
				p.MaxPkgs = 5
				s = zs.Generate(r, p)
			}
			x := &CLICase{Schema: s, Seed: r.U64()}
			dir := c.scratch()
			tree, res, args, inputs := c.detRun(x, dir, "base", nil)
			mu.Lock()
			defer mu.Unlock()
			if res.Code != 0 {
				c.excluded++
				c.drop(dir)
				if c.explore {
					fmt.Println("refused:", runText(res, args))
				}
				return
			}
			if inputs != "" {
				x.Scenario = "again"
				found = append(found, &Replay{Property: c.id, CLI: x, Kind: "inputs", Msg: "the compiler changed its inputs: " + inputs + "\n" + runText(res, args)})
			}
			st[i] = &state{x, dir, tree}
			if len(c.samples) < 3 {
				c.samples = append(c.samples, map[string]any{"schema": clip(s.Text(), 1200), "options": strings.Join(detOptions(x, dir).opts, " "), "files": len(tree)})
			}
		})
		time.Sleep(1100 * time.Millisecond)
		vs := detVariants
		if c.thorough() {
			vs = append(append([]string{}, vs...), vs...)
		}
		for k, v := range vs {
			c.rig.Each(m, func(i int) {
				if st[i] == nil {
					return
				}
				kind, msg := c.detCompare(st[i].x, st[i].dir, v, st[i].base)
				mu.Lock()
				defer mu.Unlock()
				c.evals++
				c.stats["variant "+v]++
				nf := 0
				for _, e := range st[i].base {
					if !e.mode.IsDir() {
						nf++
					}
				}
				if nf >= 2 || detOptions(st[i].x, st[i].dir).stdout {
					h := fnv.New64a()
					fmt.Fprint(h, k, st[i].x.Schema.Text())
					texts[h.Sum64()] = true
				}
				if kind != "" {
					x := *st[i].x
					x.Scenario = v
					found = append(found, &Replay{Property: c.id, CLI: &x, Kind: kind, Msg: msg})
				}
			})
		}
		for _, s := range st {
			if s != nil {
				c.drop(s.dir)
			}
		}
	}
	c.nontriv = len(texts)
	if c.evals == 0 {
		die("the compiler accepts no schema")
	}
	c.reportCLI(found, func(r *Replay) *Replay {
		return c.shrinkSchema(r, 60*time.Second, func(s *zs.Schema) bool { return true })
	})
}
