package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"zsverif/rig"
	"zsverif/zs"
)

// spec is a property decided with generated code of random schemas.
type spec struct {
	arrays [2]int // cases about arrays of the runtime library

	mode       string
	rule       string
	prof       func(r *zs.Rng, i int) zs.Prof
	gen        func(r *zs.Rng, i int) *zs.Schema // instead of prof
	schemas    [2]int
	values     [2]int
	sql        bool
	full       bool
	race       bool
	pair       bool
	compile    bool // schemas that are refused or do not compile are violations
	code       bool // the code of accepted schemas has to compile
	concurrent bool
	assume     []string
	enough     map[string]int // classes that a quick run must reach
}

// generate makes schema number i of the run.
func (sp *spec) generate(seed uint64, i int) *zs.Schema {
	for try := uint64(0); ; try++ {
		r := zs.NewRng(seed, uint64(i), try)
		var s *zs.Schema
		if sp.gen != nil {
			s = sp.gen(r, i)
		} else {
			s = zs.Generate(r, sp.prof(r, i))
		}
		if s != nil && (s.Sound() || try > 50) {
			return s
		}
	}
}

func (c *check) runSpec(sp *spec) {
	c.rule = sp.rule
	c.assume = sp.assume
	c.rig.Race = sp.race
	if c.rig.CLI == "" {
		if err := c.rig.BuildCLI(); err != nil {
			die("%v", err)
		}
	}
	total := c.pick(sp.schemas[0], sp.schemas[1])
	nv := sp.values[0]
	if c.thorough() {
		nv = sp.values[1]
	}
	const per = 64
	for at := 0; at < total; at += per {
		n := total - at
		if n > per {
			n = per
		}
		schemas := make([]*zs.Schema, n)
		c.rig.Each(n, func(i int) { schemas[i] = sp.generate(c.seed, at+i) })
		var units []*rig.Unit
		var cases []*zs.SCase
		byKey := map[string]*zs.SCase{}
		for i, s := range schemas {
			sc := &zs.SCase{Key: fmt.Sprintf("s%d", at+i), Schema: s, Seed: zs.NewRng(c.seed, uint64(at+i), 99).U64()}
			units = append(units, sp.unit(sc.Key, s))
			if sp.pair {
				sc.Pair = s.Expand()
				units = append(units, sp.unit(sc.Key+"x", sc.Pair))
			}
			cases = append(cases, sc)
			byKey[sc.Key] = sc
		}
		b, good := c.prepare(sp, units, cases)
		job := &zs.Job{Mode: sp.mode, N: nv, Shrink: 300}
		out := b.Drive(job, good, 10*time.Minute)
		c.absorb(out)
		found := c.twins
		c.twins = nil
		for _, l := range out.Viols {
			if l.Kind == "harness" {
				out.Errors = append(out.Errors, fmt.Sprintf("harness: %s %s: %s\nvalue %s\n%s", l.Key, l.Root, l.Msg, l.Value, byKey[l.Key].Schema.Text()))
				continue
			}
			found = append(found, sp.replay(c.id, byKey[l.Key], l, nv))
		}
		if len(out.Errors) > 0 && (len(found) == 0 || c.explore) {
			die("%s", strings.Join(out.Errors, "\n"))
		}
		if c.explore {
			found = spread(found, 40)
		}
		c.report(sp, found)
		os.RemoveAll(b.Dir)
		if len(c.viols) > 0 && !c.explore {
			return
		}
	}
	if total > 0 && c.excluded*5 > total*len([]int{1}) && !sp.compile && len(c.viols) == 0 && !c.explore {
		die("%d of %d schemas do not compile", c.excluded, total)
	}
	if sp.arrays[0] > 0 && len(c.viols) == 0 {
		c.arrayPhase(c.pick(sp.arrays[0], sp.arrays[1]))
	}
}

func spread(r []*Replay, n int) []*Replay {
	if len(r) > n {
		return r[:n]
	}
	return r
}

func (sp *spec) unit(key string, s *zs.Schema) *rig.Unit {
	return &rig.Unit{Key: key, Schema: s, SQL: sp.sql, Full: sp.full}
}

func (sp *spec) replay(id string, sc *zs.SCase, l *zs.Line, n int) *Replay {
	x := *sc
	x.OnlyRoot, x.OnlyIdx = l.Root, -1
	return &Replay{Property: id, Mode: sp.mode, Case: &x, N: n, SQL: sp.sql, Full: sp.full, Race: sp.race, Root: l.Root, Kind: l.Kind, Msg: l.Msg, Value: l.Value, Hex: l.Hex}
}

// prepare generates and compiles; good are the cases that can run.
func (c *check) prepare(sp *spec, units []*rig.Unit, cases []*zs.SCase) (*rig.Batch, []*zs.SCase) {
	b, err := c.rig.Generate(units)
	if err != nil {
		die("%v", err)
	}
	if err := b.Build(); err != nil {
		die("%v", err)
	}
	bad := map[string]*rig.Unit{}
	for _, u := range units {
		if !u.OK() {
			bad[u.Key] = u
		}
	}
	var good []*zs.SCase
	for _, sc := range cases {
		u := bad[sc.Key]
		if u == nil {
			u = bad[sc.Key+"x"]
		}
		if u == nil {
			good = append(good, sc)
			continue
		}
		if sp.pair && bad[sc.Key] != nil && bad[sc.Key+"x"] == nil {
			c.twins = append(c.twins, compileReplay(c.id, sp, sc, u))
			continue
		}
		if sp.code && u.GenErr == "" {
			c.twins = append(c.twins, compileReplay(c.id, sp, sc, u))
			continue
		}
		if sp.compile {
			c.viols = append(c.viols, compileReplay(c.id, sp, sc, u))
		} else {
			c.excluded++
			if c.explore {
				fmt.Printf("excluded %s: %s%s\n", sc.Key, u.GenErr, u.GoErr)
				if os.Getenv("ZS_DUMP") != "" {
					fmt.Println(sc.Schema.Text())
				}
			}
		}
	}
	return b, good
}

func compileReplay(id string, sp *spec, sc *zs.SCase, u *rig.Unit) *Replay {
	msg, kind := "the generated code does not compile:\n"+u.GoErr, "compile"
	if u.GenErr != "" {
		msg, kind = "the compiler refuses a valid schema: "+u.GenErr, "generate"
	}
	if sc.Pair != nil {
		msg += "\n(with the templates written out by hand it is accepted and compiles)"
	}
	x := *sc
	x.OnlyRoot = "*"
	return &Replay{Property: id, Mode: sp.mode, Case: &x, N: 1, SQL: sp.sql, Full: sp.full, Kind: kind, Root: "*", Msg: msg}
}

// runDriver runs saved cases together.
func (c *check) runDriver(rps []*Replay) []*Replay {
	if c.rig.CLI == "" {
		if err := c.rig.BuildCLI(); err != nil {
			die("%v", err)
		}
	}
	res := make([]*Replay, len(rps))
	var units []*rig.Unit
	c.rig.Race = false
	for i, rp := range rps {
		c.rig.Race = c.rig.Race || rp.Race
		rp.Case.Key = fmt.Sprintf("w%d", i)
		units = append(units, &rig.Unit{Key: rp.Case.Key, Schema: rp.Case.Schema, SQL: rp.SQL, Full: rp.Full})
		if rp.Case.Pair != nil {
			units = append(units, &rig.Unit{Key: rp.Case.Key + "x", Schema: rp.Case.Pair, SQL: rp.SQL, Full: rp.Full})
		}
	}
	b, err := c.rig.Generate(units)
	if err != nil {
		die("%v", err)
	}
	if err := b.Build(); err != nil {
		die("%v", err)
	}
	bad := map[string]*rig.Unit{}
	for _, u := range units {
		if !u.OK() {
			bad[u.Key] = u
		}
	}
	for i, rp := range rps {
		u := bad[rp.Case.Key]
		if u == nil {
			u = bad[rp.Case.Key+"x"]
		}
		if u != nil {
			if rp.Kind == "compile" || rp.Kind == "generate" || rp.Property == "C13" {
				x := compileReplay(rp.Property, &spec{mode: rp.Mode}, rp.Case, u)
				res[i] = x
			} else {
				die("%s of the case does not compile: %s%s", rp.Property, u.GenErr, u.GoErr)
			}
			continue
		}
		if rp.Mode == "" {
			continue
		}
		sc := *rp.Case
		job := &zs.Job{Mode: rp.Mode, N: rp.N, Shrink: 300}
		out := b.Drive(job, []*zs.SCase{&sc}, 5*time.Minute)
		if len(out.Errors) > 0 && len(out.Viols) == 0 {
			die("%s", strings.Join(out.Errors, "\n"))
		}
		for _, l := range out.Viols {
			if l.Kind == "harness" {
				if len(out.Viols) == 1 {
					die("harness: %s", l.Msg)
				}
				continue
			}
			x := *rp
			x.Root, x.Kind, x.Msg, x.Value, x.Hex = l.Root, l.Kind, l.Msg, l.Value, l.Hex
			res[i] = &x
		}
	}
	os.RemoveAll(b.Dir)
	return res
}

// report shrinks the schemas of violations and records them.
func (c *check) report(sp *spec, found []*Replay) {
	max := 2
	if c.explore {
		max = len(found)
	}
	// Different kinds first.
	var pick []*Replay
	seen := map[string]bool{}
	for pass := 0; pass < 2; pass++ {
		for _, r := range found {
			if len(pick) < max && (pass == 1) == seen[r.Kind] {
				seen[r.Kind] = true
				if pass == 1 {
					dup := false
					for _, p := range pick {
						dup = dup || p == r
					}
					if dup {
						continue
					}
				}
				pick = append(pick, r)
			}
		}
	}
	limit := 75 * time.Second
	if c.thorough() {
		limit = 4 * time.Minute
	}
	if c.explore {
		limit = 3 * time.Minute
	}
	c.shrinkAll(sp, pick, time.Now().Add(limit))
	c.viols = append(c.viols, pick...)
}

// shrinkAll simplifies the schemas of several violations at the same time.
func (c *check) shrinkAll(sp *spec, rs []*Replay, until time.Time) {
	done := make([]bool, len(rs))
	for round := 0; round < 14 && time.Now().Before(until); round++ {
		type cand struct {
			of int
			s  *zs.Schema
			rp *Replay
		}
		var cands []*cand
		budget := 160
		for i, r := range rs {
			twin := sp.pair && (r.Kind == "compile" || r.Kind == "generate")
			if done[i] || r.Root == "*" && sp.mode != "concurrent" && !twin {
				continue
			}
			var list []*zs.Schema
			if roots := r.Case.Schema.Roots; twin && len(roots) == 1 {
				list = safeReductions(r.Case.Schema, roots[0])
			} else if r.Root == "*" {
				for _, root := range r.Case.Schema.Roots {
					if len(r.Case.Schema.Roots) > 1 {
						list = append(list, r.Case.Schema.Slice(root))
					}
				}
			} else {
				if round == 0 {
					list = append(list, r.Case.Schema.Slice(r.Root))
				}
				list = append(list, safeReductions(r.Case.Schema, r.Root)...)
			}
			lim := budget / len(rs)
			if lim < 12 {
				lim = 12
			}
			k := 0
			for _, s := range list {
				if !s.Sound() {
					continue
				}
				cands = append(cands, &cand{of: i, s: s})
				if k++; k >= lim {
					break
				}
			}
		}
		if len(cands) == 0 {
			return
		}
		var units []*rig.Unit
		var cases []*zs.SCase
		for k, cd := range cands {
			r := rs[cd.of]
			sc := &zs.SCase{Key: fmt.Sprintf("r%dc%d", round, k), Schema: cd.s, Seed: r.Case.Seed, OnlyRoot: cd.s.Roots[0], OnlyIdx: -1}
			if r.Root == "*" {
				sc.OnlyRoot = "*"
			}
			units = append(units, sp.unit(sc.Key, cd.s))
			if sp.pair {
				sc.Pair = cd.s.Expand()
				units = append(units, sp.unit(sc.Key+"x", sc.Pair))
			}
			cases = append(cases, sc)
			cd.rp = &Replay{Case: sc}
		}
		b, err := c.rig.Generate(units)
		if err != nil || b.Build() != nil {
			return
		}
		ok := map[string]bool{}
		for _, u := range units {
			ok[u.Key] = u.OK()
		}
		var good []*zs.SCase
		for _, sc := range cases {
			if ok[sc.Key] && (!sp.pair || ok[sc.Key+"x"]) {
				good = append(good, sc)
			}
		}
		nv := rs[0].N
		out := b.Drive(&zs.Job{Mode: sp.mode, N: nv, Shrink: 300}, good, 3*time.Minute)
		os.RemoveAll(b.Dir)
		best := map[int]*Replay{}
		for k, cd := range cands {
			if key := cases[k].Key; sp.pair && !ok[key] && ok[key+"x"] {
				for _, u := range units {
					if u.Key != key {
						continue
					}
					x := compileReplay(c.id, sp, cases[k], u)
					if o := best[cd.of]; x.Kind == rs[cd.of].Kind && (o == nil || len(x.Case.Schema.Text()) < len(o.Case.Schema.Text())) {
						best[cd.of] = x
					}
				}
			}
			for _, l := range out.Viols {
				if l.Key != cases[k].Key || l.Kind != rs[cd.of].Kind {
					continue
				}
				x := sp.replay(c.id, cases[k], l, nv)
				if o := best[cd.of]; o == nil || len(x.Case.Schema.Text()) < len(o.Case.Schema.Text()) {
					best[cd.of] = x
				}
			}
		}
		for i := range rs {
			if done[i] {
				continue
			}
			if best[i] == nil {
				done[i] = true
			} else {
				*rs[i] = *best[i]
			}
		}
	}
}

func safeReductions(s *zs.Schema, root string) (out []*zs.Schema) {
	defer func() {
		if recover() != nil {
			out = nil
		}
	}()
	return s.Reductions(root)
}
