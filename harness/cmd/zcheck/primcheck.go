package main

import (
	"encoding/json"
	"hash/maphash"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"zsverif/prim"
	"zsverif/zs"
)

// PrimCase is a saved case of the runtime library.
type PrimCase = prim.Case

func (c *check) runPrim(rp *Replay) *Replay {
	if b := rp.Prim.Run(); b != nil {
		out := *rp
		out.Kind, out.Msg = b.Kind, b.Msg
		return &out
	}
	return nil
}

// planPrim decides a property of the runtime library.
func planPrim(rule string, quick, thorough int) func(c *check) {
	return func(c *check) {
		c.rule = rule
		c.primPhase(c.pick(quick, thorough), true, func(i int) *prim.Case {
			g := &prim.Gen{R: zs.NewRng(c.seed, uint64(i), 7), Prop: c.id}
			return g.Case()
		})
	}
}

// arrayPhase uses arrays of the runtime library directly.
func (c *check) arrayPhase(total int) {
	c.rule += " In addition arrays of the runtime library are used directly, with all array traits, at any bit position; a case is one array. Non-trivial: distinct arrays of at least two elements."
	c.primPhase(total, false, func(i int) *prim.Case {
		g := &prim.Gen{R: zs.NewRng(c.seed, uint64(i), 8), Prop: c.id}
		return g.ArrayCase()
	})
}

// primPhase runs cases of the runtime library.
func (c *check) primPhase(total int, exhaustive bool, gen func(i int) *prim.Case) {
	workers := runtime.NumCPU()
	type slot struct {
		cur   atomic.Pointer[prim.Case]
		since atomic.Int64
	}
	slots := make([]slot, workers)
	var mu sync.Mutex
	var found []*prim.Case
	seen := map[uint64]bool{}
	seed := maphash.MakeSeed()
	var stop atomic.Bool
	one := func(w int, x *prim.Case, local map[uint64]bool, stats map[string]int) {
		slots[w].since.Store(time.Now().UnixNano())
		slots[w].cur.Store(x)
		b := x.Run()
		slots[w].cur.Store(nil)
		stats["mode "+x.Mode]++
		for i := range x.Ops {
			o := &x.Ops[i]
			stats["op "+o.K]++
		}
		if len(x.Ops) > 1 || len(x.Buf) > 1 {
			j, _ := json.Marshal(x)
			local[maphash.Bytes(seed, j)] = true
		}
		if b != nil {
			mu.Lock()
			if len(found) < 4 {
				found = append(found, x)
			} else {
				stop.Store(true)
			}
			mu.Unlock()
		}
	}
	done := make(chan bool)
	go func() { // a case that does not end
		for {
			select {
			case <-done:
				return
			case <-time.After(time.Second):
			}
			for i := range slots {
				x := slots[i].cur.Load()
				if x != nil && time.Since(time.Unix(0, slots[i].since.Load())) > 60*time.Second {
					c.viols = append(c.viols, &Replay{Property: c.id, Prim: x, Kind: "hang", Msg: "the case does not end\n" + x.Describe()})
					c.finish()
					os.Exit(1)
				}
			}
		}
	}()
	ch := make(chan *prim.Case, 64)
	var wg sync.WaitGroup
	merge := func(local map[uint64]bool, stats map[string]int, n int) {
		mu.Lock()
		defer mu.Unlock()
		for h := range local {
			seen[h] = true
		}
		for k, v := range stats {
			c.stats[k] += v
		}
		c.evals += n
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			local, stats, n := map[uint64]bool{}, map[string]int{}, 0
			for x := range ch {
				one(w, x, local, stats)
				stats["exhaustive"]++
				n++
			}
			merge(local, stats, n)
		}()
	}
	if exhaustive {
		prim.Exhaustive(c.id, func(x *prim.Case) {
			if !stop.Load() {
				ch <- x
			}
		})
	}
	close(ch)
	wg.Wait()
	var next atomic.Int64
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			local, stats, n := map[uint64]bool{}, map[string]int{}, 0
			for !stop.Load() {
				i := next.Add(1) - 1
				if i >= int64(total) {
					break
				}
				x := gen(int(i))
				if i < 4 {
					mu.Lock()
					c.samples = append(c.samples, x.Describe())
					mu.Unlock()
				}
				one(w, x, local, stats)
				stats["random"]++
				n++
			}
			merge(local, stats, n)
		}()
	}
	wg.Wait()
	close(done)
	c.nontriv += len(seen)
	for _, x := range found {
		if len(c.viols) > 0 && !c.explore {
			break
		}
		y := prim.Shrink(x)
		b := y.Run()
		if b == nil {
			y, b = x, x.Run()
		}
		if b == nil {
			die("a failing case does not fail again: %s", x.Describe())
		}
		c.viols = append(c.viols, &Replay{Property: c.id, Prim: y, Kind: b.Kind, Msg: b.Msg})
	}
}
