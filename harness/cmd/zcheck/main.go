// Command zcheck decides one property of go-zserio by generated-input search.
//
//	zcheck -property C01 -tier quick
//	zcheck -property C01 -replay FILE
//
// Exit 0: the property held on everything explored. Exit 1: a violation was
// found (and a VIOLATION line printed). Exit 2: the check itself failed.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"zsverif/rig"
	"zsverif/zs"
)

// Replay is a saved failing case.
type Replay struct {
	Property string `json:"property"`
	// driver: generated code of a schema against the model.
	Mode string    `json:"mode,omitempty"`
	Case *zs.SCase `json:"case,omitempty"`
	N    int       `json:"n,omitempty"`
	SQL  bool      `json:"sql,omitempty"`
	Full bool      `json:"full,omitempty"`
	Race bool      `json:"race,omitempty"`
	// schema: the compiler should accept the schema and its code compile.
	Schema string `json:"schema_text,omitempty"`
	// cli: files given to the compiler.
	CLI *CLICase `json:"cli,omitempty"`
	// prim: a test of the runtime library, run by name.
	Prim *PrimCase `json:"prim,omitempty"`
	// What was seen.
	Root  string `json:"root,omitempty"`
	Kind  string `json:"kind,omitempty"`
	Msg   string `json:"message,omitempty"`
	Value string `json:"value,omitempty"`
	Hex   string `json:"bytes,omitempty"`
}

type check struct {
	id, tier string
	seed     uint64
	verif    string
	rig      *rig.Rig
	start    time.Time
	evals    int
	nontriv  int
	stats    map[string]int
	samples  []any
	excluded int
	twins    []*Replay // schemas that fail to compile though they have to
	rule     string
	level    string
	assume   []string
	viols    []*Replay
	known    []string
	explore  bool
	scale    float64
}

func (c *check) thorough() bool { return c.tier == "thorough" }

// pick chooses by tier.
func (c *check) pick(quick, thorough int) int {
	n := quick
	if c.thorough() {
		n = thorough
	}
	n = int(float64(n) * c.scale)
	if n < 1 {
		n = 1
	}
	return n
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "zcheck: error: "+f+"\n", a...)
	cleanup()
	os.Exit(2)
}

var cleanup = func() {}

func main() {
	id := flag.String("property", "", "property")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	replay := flag.String("replay", "", "replay file")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "", "verification directory")
	explore := flag.Bool("explore", false, "list what fails, write no evidence")
	scale := flag.Float64("scale", 1, "scale case counts")
	seedf := flag.String("seed", os.Getenv("VERIF_SEED"), "seed")
	flag.Parse()
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, err := strconv.ParseUint(*seedf, 10, 64)
	if err != nil || seed == 0 {
		seed = 1
		if err == nil && *seedf != "" {
			seed = 0x5eed
		}
	}
	dir := *verif
	if dir == "" {
		dir, _ = os.Getwd()
		for dir != "/" {
			if _, err := os.Stat(filepath.Join(dir, "properties.jsonl")); err == nil {
				break
			}
			dir = filepath.Dir(dir)
		}
	}
	r, err := rig.New(*repo, filepath.Join(dir, "harness"))
	if err != nil {
		die("%v", err)
	}
	cleanup = r.Close
	c := &check{id: *id, tier: *tier, seed: seed, verif: dir, rig: r, start: time.Now(), stats: map[string]int{}, level: "exploration", explore: *explore, scale: *scale}
	defer func() {
		if x := recover(); x != nil {
			cleanup()
			panic(x)
		}
	}()
	p := plans[*id]
	if p == nil {
		die("unknown property %q", *id)
	}
	if *replay != "" {
		c.replayFile(*replay)
		cleanup()
		return
	}
	c.witnesses()
	p(c)
	c.finish()
}

// replayFile runs a saved case again.
func (c *check) replayFile(f string) {
	raw, err := os.ReadFile(f)
	if err != nil {
		die("%v", err)
	}
	rp := &Replay{}
	if err := json.Unmarshal(raw, rp); err != nil {
		die("%v", err)
	}
	if out := c.run(rp); out != nil {
		fmt.Println(describe(out))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, f)
		cleanup()
		os.Exit(1)
	}
	fmt.Println("the case passes")
}

// run executes a replay; nil when the property holds.
func (c *check) run(rp *Replay) *Replay {
	switch {
	case rp.Case != nil:
		return c.runDriver([]*Replay{rp})[0]
	case rp.CLI != nil:
		return c.runCLI(rp)
	case rp.Prim != nil:
		return c.runPrim(rp)
	}
	die("empty replay")
	return nil
}

func describe(r *Replay) string {
	var b strings.Builder
	fmt.Fprintf(&b, "--- %s %s", r.Property, r.Kind)
	if r.Root != "" {
		fmt.Fprintf(&b, " in %s", r.Root)
	}
	fmt.Fprintf(&b, "\n%s\n", r.Msg)
	if r.Value != "" {
		fmt.Fprintf(&b, "value: %s\n", clip(r.Value, 1500))
	}
	if r.Case != nil {
		fmt.Fprintf(&b, "schema %s:\n%s\n", r.Case.Key, r.Case.Schema.Text())
	}
	if r.Prim != nil {
		fmt.Fprintf(&b, "%s\n", r.Prim.Describe())
	}
	if r.CLI != nil {
		fmt.Fprintf(&b, "%s\n", r.CLI.describe())
	}
	return b.String()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// finding is a line of the known-findings file.
type finding struct {
	property, id, witness, text string
}

func (c *check) findings() []finding {
	raw, err := os.ReadFile(filepath.Join(c.verif, "KNOWN-FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(raw), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: ")
		if !ok {
			continue
		}
		var f finding
		for {
			w, r, _ := strings.Cut(rest, " ")
			k, v, ok := strings.Cut(w, "=")
			if !ok || k != "property" && k != "id" && k != "witness" {
				f.text = rest
				break
			}
			switch k {
			case "property":
				f.property = v
			case "id":
				f.id = v
			case "witness":
				f.witness = v
			}
			rest = r
		}
		if f.property == c.id {
			out = append(out, f)
		}
	}
	return out
}

// witnesses runs the known findings of the property again.
func (c *check) witnesses() {
	fs := c.findings()
	var rps []*Replay
	var of []finding
	for _, f := range fs {
		raw, err := os.ReadFile(filepath.Join(c.verif, f.witness))
		if err != nil {
			die("witness of %s: %v", f.id, err)
		}
		rp := &Replay{}
		if err := json.Unmarshal(raw, rp); err != nil {
			die("witness of %s: %v", f.id, err)
		}
		rps, of = append(rps, rp), append(of, f)
	}
	var drv []*Replay
	var didx []int
	res := make([]*Replay, len(rps))
	for i, rp := range rps {
		if rp.Case != nil {
			drv, didx = append(drv, rp), append(didx, i)
		} else {
			res[i] = c.run(rp)
		}
	}
	if len(drv) > 0 {
		for k, x := range c.runDriver(drv) {
			res[didx[k]] = x
		}
	}
	for i, x := range res {
		c.stats["known-finding-witnesses"]++
		if x != nil {
			c.known = append(c.known, of[i].id)
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.id, of[i].id, of[i].text)
			if c.explore {
				fmt.Println("   ", strings.ReplaceAll(clip(x.Msg, 600), "\n", "\n    "))
			}
		} else if c.explore {
			fmt.Printf("finding %s does not show any more\n", of[i].id)
		}
	}
}

func (c *check) finish() {
	wall := time.Since(c.start).Seconds()
	if c.explore {
		fmt.Printf("evaluations %d, non-trivial %d, excluded %d, %.1f s\n%v\n", c.evals, c.nontriv, c.excluded, wall, c.stats)
		for _, v := range c.viols {
			fmt.Println(describe(v))
		}
		kinds := map[string]int{}
		for _, v := range c.viols {
			kinds[v.Kind]++
		}
		fmt.Println("violations:", len(c.viols), kinds)
		cleanup()
		if len(c.viols) > 0 {
			os.Exit(1)
		}
		return
	}
	dir := filepath.Join(c.verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		die("%v", err)
	}
	old, _ := filepath.Glob(filepath.Join(dir, "replay-"+c.id+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	cov := map[string]any{"evaluations": c.evals, "distinct_nontrivial": c.nontriv, "rule": c.rule, "samples": c.samples, "classes": c.stats, "schemas_excluded": c.excluded}
	if len(c.samples) == 0 {
		cov["samples"] = []any{"none"}
	}
	ev := map[string]any{"property": c.id, "tier": c.tier, "seed": c.seed, "level": c.level, "coverage": cov, "wall_s": wall, "violations": len(c.viols)}
	if len(c.assume) > 0 {
		ev["assumptions"] = c.assume
	}
	if len(c.known) > 0 {
		cov["known_findings_seen"] = c.known
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, c.id+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("%s %s seed %d: %d cases, %d distinct non-trivial, %.1f s\n", c.id, c.tier, c.seed, c.evals, c.nontriv, wall)
	for i, v := range c.viols {
		f := filepath.Join(dir, fmt.Sprintf("replay-%s-%d.json", c.id, i+1))
		b, err := json.MarshalIndent(v, "", " ")
		if err != nil {
			die("%v", err)
		}
		if err := os.WriteFile(f, append(b, '\n'), 0o644); err != nil {
			die("%v", err)
		}
		fmt.Println(describe(v))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, f)
	}
	cleanup()
	if len(c.viols) > 0 {
		os.Exit(1)
	}
}

func (c *check) absorb(o *rig.Outcome) {
	c.evals += o.Evals
	c.nontriv += o.Nontriv
	for k, v := range o.Stats {
		c.stats[k] += v
	}
	for _, s := range o.Samples {
		if len(c.samples) < 6 {
			c.samples = append(c.samples, s)
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
