package driver

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strings"
	"sync"

	"zsverif/prim"
	"zsverif/zs"
)

// walk visits the compounds of a decoded object.
func (r *run) walk(in *zs.Inst, v *zs.Val, src reflect.Value, path string, fn func(in *zs.Inst, v *zs.Val, src reflect.Value, path string) *viol) *viol {
	if bad := fn(in, v, src, path); bad != nil {
		return bad
	}
	for i, x := range v.O {
		if x == nil {
			continue
		}
		f := in.D.Fields[i]
		rt := r.w.F(in, i)
		if rt.K != "comp" {
			continue
		}
		d := r.b.field(src, f.Name, false)
		if f.Optional {
			if d.IsNil() {
				return vf("decode", "%s.%s is nil", path, f.Name)
			}
			d = d.Elem()
		}
		if f.Array == zs.NoArray {
			if bad := r.walk(rt.In, x, d, path+"."+f.Name, fn); bad != nil {
				return bad
			}
			continue
		}
		for k, y := range x.A {
			if k >= d.Len() {
				return vf("decode", "%s.%s is too short", path, f.Name)
			}
			if bad := r.walk(rt.In, y, d.Index(k), fmt.Sprintf("%s.%s[%d]", path, f.Name, k), fn); bad != nil {
				return bad
			}
		}
	}
	return nil
}

// goEquals compares a Go value with the result of an expression.
func goEquals(g reflect.Value, e *zs.EV) (string, bool) {
	switch e.K {
	case 'i':
		var n *big.Int
		switch {
		case g.CanInt():
			n = big.NewInt(g.Int())
		case g.CanUint():
			n = new(big.Int).SetUint64(g.Uint())
		case g.CanFloat():
			return fmt.Sprint(g.Float()), new(big.Float).SetInt(e.N).Cmp(big.NewFloat(g.Float())) == 0
		default:
			return g.Type().String(), false
		}
		return n.String(), n.Cmp(e.N) == 0
	case 'b':
		return fmt.Sprint(g), g.Kind() == reflect.Bool && g.Bool() == e.B
	case 'f':
		if !g.CanFloat() {
			return g.Type().String(), false
		}
		return fmt.Sprint(g.Float()), g.Float() == e.F || math.IsNaN(e.F) && math.IsNaN(g.Float()) || g.Kind() == reflect.Float32 && float32(e.F) == float32(g.Float())
	case 's':
		return fmt.Sprintf("%q", g), g.Kind() == reflect.String && g.String() == e.S
	}
	return "", true
}

// C11
func exprs(r *run, v *zs.Val, rng *zs.Rng) *viol {
	b, bad := conform(r, v, rng)
	if bad != nil {
		return bad
	}
	fresh := r.obj()
	if err := unmarshal(b, fresh); err != nil {
		return &viol{"decode", err.Error(), b}
	}
	called := 0
	bad = r.walk(r.in, v, reflect.ValueOf(fresh).Elem(), "", func(in *zs.Inst, v *zs.Val, src reflect.Value, path string) *viol {
		for _, f := range in.D.Funcs {
			want, err := r.w.CallFn(in, v, f.Name)
			if err != nil {
				r.out.stat("undefined", 1)
				continue
			}
			if want.K == 'a' {
				continue
			}
			m := src.Addr().MethodByName(strings.Title(f.Name))
			if !m.IsValid() {
				return vf("function", "no method for function %s of %s", f.Name, in.D.Name)
			}
			var res []reflect.Value
			if bad := guard("function "+f.Name, func() *viol { res = m.Call(nil); return nil }); bad != nil {
				bad.msg = fmt.Sprintf("function %s: return %s; in %s: %s", f.Name, f.Body, in.D.Name, bad.msg)
				return bad
			}
			called++
			r.out.done.Evals++
			if want.K == 'o' {
				w, err := r.c.Encode(want.RT.In, want.V, 0)
				if err != nil {
					return vf("harness", "result of %s cannot be encoded: %v", f.Name, err)
				}
				p := reflect.New(res[0].Type())
				p.Elem().Set(res[0])
				o, ok := p.Interface().(object)
				if !ok {
					return vf("function", "function %s %s { return %s; } of %s%s gives a %s", f.Ret, f.Name, f.Body, in.D.Name, path, res[0].Type())
				}
				got, err := marshal(o)
				if err != nil || !bytes.Equal(got, w.Buf) {
					return vf("function", "function %s %s { return %s; } of %s%s gives another object: it is encoded as %x (%v), not %x", f.Ret, f.Name, f.Body, in.D.Name, path, got, err, w.Buf)
				}
				r.out.stat("objects", 1)
			}
			if got, ok := goEquals(res[0], want); !ok {
				return vf("function", "function %s %s { return %s; } of %s%s gives %s, not %s", f.Ret, f.Name, f.Body, in.D.Name, path, got, want)
			}
			r.out.distinct(r.sc.Key, in.D.Name, f.Name, want.String(), b)
		}
		return nil
	})
	if bad != nil {
		bad.hex = b
		return bad
	}
	r.out.stat("calls", called)
	if len(b) > 0 && called == 0 && r.in.HasExprs(r.w) {
		r.out.distinct(r.sc.Key, r.root, b)
	}
	if called > 0 && rng.P(.02) {
		r.sample(v, b, fmt.Sprintf("%d functions called", called))
	}
	return nil
}

// C20 (and C11): constants
func constants(r *run) *viol {
	for _, p := range r.sc.Schema.Pkgs {
		for _, d := range p.Decls {
			if d.Kind != "const" {
				continue
			}
			want, err := r.w.TryEval(&zs.Env{W: r.w}, &zs.Expr{Op: "const", Ref: d.Ref()})
			if err != nil {
				r.out.stat("undefined-consts", 1)
				continue
			}
			got, ok := r.e.Consts[d.Ref()]
			if !ok {
				return vf("harness", "constant %s not linked", d.Ref())
			}
			r.out.done.Evals++
			if d.Type.K == "ref" {
				if rt := r.w.Resolve(nil, d.Type); rt.K == "mask" || rt.K == "enum" {
					want = &zs.EV{K: 'i', N: want.N}
				}
			}
			if s, ok := goEquals(reflect.ValueOf(got), want); !ok {
				return vf("const", "%s is %s in Go, not %s", strings.TrimSpace(d.String()), s, want)
			}
			if len(d.Value.Args) > 0 || d.Value.Ref != "" || d.Type.K != "uint8" {
				r.out.distinct(d.String(), want.String())
			}
			r.out.stat("consts", 1)
			if len(r.out.done.Samples) < r.job.Samples && len(d.Value.Args) > 0 {
				r.out.done.Samples = append(r.out.done.Samples, map[string]any{"const": strings.TrimSpace(d.String()), "value": want.String()})
			}
		}
	}
	return nil
}

// C20: default values
func defaults(r *run, v *zs.Val, rng *zs.Rng) *viol {
	o := r.obj()
	keep := r.obj()
	if rng.P(.8) {
		seed := rng.U64()
		o, keep = r.goObj(v, zs.NewRng(seed)), r.goObj(v, zs.NewRng(seed))
	}
	m, ok := o.(interface{ LoadDefaultValues() error })
	if !ok {
		return vf("default", "no LoadDefaultValues")
	}
	if err := m.LoadDefaultValues(); err != nil {
		return vf("default", "LoadDefaultValues fails: %v", err)
	}
	n := 0
	bad := r.checkDefaults(r.in, reflect.ValueOf(o).Elem(), reflect.ValueOf(keep).Elem(), "", &n, 0)
	if bad != nil {
		return bad
	}
	r.out.stat("defaults", n)
	if n > 0 {
		w, _ := r.ref(v)
		if w != nil && r.out.distinct(r.sc.Key, r.root, w.Buf) && rng.P(.02) {
			r.sample(v, w.Buf, fmt.Sprintf("%d fields with default values checked", n))
		}
	}
	return nil
}

func (r *run) checkDefaults(in *zs.Inst, o, keep reflect.Value, path string, n *int, depth int) *viol {
	for i, f := range in.D.Fields {
		rt := r.w.F(in, i)
		a, b := r.b.field(o, f.Name, false), r.b.field(keep, f.Name, false)
		p := path + "." + f.Name
		switch {
		case rt.K == "comp" && f.Array == zs.NoArray && !f.Optional:
			if depth < 20 {
				if bad := r.checkDefaults(rt.In, a, b, p, n, depth+1); bad != nil {
					return bad
				}
			}
		case f.Default != nil && !f.Optional && f.Array == zs.NoArray:
			want, err := r.w.TryEval(&zs.Env{W: r.w, In: in}, f.Default)
			if err != nil {
				continue
			}
			*n++
			if got, ok := goEquals(a, want); !ok {
				return vf("default", "%s (%s) holds %s after LoadDefaultValues, not %s", p, f, got, want)
			}
		default:
			if !sameGo(a, b) {
				return vf("default", "LoadDefaultValues changes %s, which has no default: %v was %v", p, a.Interface(), b.Interface())
			}
		}
	}
	if in.D.Kind == "union" {
		if x, y := o.FieldByName("UnionChoice").Uint(), keep.FieldByName("UnionChoice").Uint(); x != y {
			return vf("default", "LoadDefaultValues changes the branch of %s", path)
		}
	}
	return nil
}

// C18
func enums(r *run) *viol {
	for _, p := range r.sc.Schema.Pkgs {
		for _, d := range p.Decls {
			if d.Kind != "enum" && d.Kind != "bitmask" {
				continue
			}
			want := r.w.Items(d)
			for i, it := range d.Items {
				got, ok := r.e.Items[d.Ref()][it.Name]
				if !ok {
					return vf("harness", "item %s of %s not linked", it.Name, d.Ref())
				}
				r.out.done.Evals++
				if s, ok := goEquals(reflect.ValueOf(got), &zs.EV{K: 'i', N: want[i]}); !ok {
					return vf("enum", "%s.%s is %s in Go, not %v", d.Name, it.Name, s, want[i])
				}
				r.out.distinct(d.String(), it.Name)
			}
			if d.Kind == "enum" {
				if bad := r.enumHelpers(d, want); bad != nil {
					return bad
				}
			} else {
				r.out.stat("bitmasks", 1)
			}
		}
	}
	return nil
}

func (r *run) enumHelpers(d *zs.Decl, want []*big.Int) *viol {
	e := r.e.Enums[d.Ref()]
	if e == nil {
		return vf("harness", "enum %s not linked", d.Ref())
	}
	r.out.stat("enums", 1)
	vals := reflect.ValueOf(e.Values())
	strs := e.Strings()
	if vals.Len() != len(want) || len(strs) != len(want) {
		return vf("enum", "%s has %d items, but %d values and %d names", d.Name, len(want), vals.Len(), len(strs))
	}
	names := map[string]bool{}
	for _, it := range d.Items {
		names[strings.Title(it.Name)] = true
	}
	for i, it := range d.Items {
		v := vals.Index(i)
		if s, ok := goEquals(v, &zs.EV{K: 'i', N: want[i]}); !ok {
			return vf("enum", "%sValues()[%d] is %s, not %v", d.Name, i, s, want[i])
		}
		// The Go name of an item is its zserio name with a capital.
		if !strings.EqualFold(strs[i], it.Name) {
			return vf("enum", "%sStrings()[%d] is %q, not %q", d.Name, i, strs[i], it.Name)
		}
		if s := v.Interface().(fmt.Stringer).String(); s != strs[i] {
			return vf("enum", "String() of %s.%s is %q", d.Name, it.Name, s)
		}
		back, err := e.FromStr(strs[i])
		if err != nil {
			return vf("enum", "%sString(%q): %v", d.Name, strs[i], err)
		}
		if s, ok := goEquals(reflect.ValueOf(back), &zs.EV{K: 'i', N: want[i]}); !ok {
			return vf("enum", "%sString(%q) is %s, not %v", d.Name, strs[i], s, want[i])
		}
		if bad := r.sql(d, e, v, strs, i, want); bad != nil {
			return bad
		}
	}
	// Callers get their own copy of the names.
	if len(strs) > 0 {
		strs[0] = "changed"
		if e.Strings()[0] == "changed" {
			return vf("enum", "%sStrings() hands out its own storage", d.Name)
		}
	}
	strs = e.Strings()
	for _, s := range []string{"", "NoSuchItem", "unknown(1)", strs[0] + " ", " " + strs[0], strs[0] + "x", "0", strings.Repeat(strs[0], 2)} {
		if names[s] {
			continue
		}
		if v, err := e.FromStr(s); err == nil {
			return vf("enum", "%sString(%q) is %v without an error", d.Name, s, v)
		}
		if bad := r.badScan(d, e, s); bad != nil {
			return bad
		}
	}
	// Values that are no item have no item's name.
	rt := reflect.TypeOf(e.New()).Elem()
	for _, n := range []int64{0, 1, 2, 3, 77, 100, 126, -1, -77} {
		is := false
		for _, w := range want {
			if w.IsInt64() && w.Int64() == n {
				is = true
			}
		}
		x := reflect.New(rt).Elem()
		if x.CanInt() {
			x.SetInt(n)
		} else if n >= 0 {
			x.SetUint(uint64(n))
		} else {
			continue
		}
		s := x.Interface().(fmt.Stringer).String()
		r.out.done.Evals++
		if names[s] != is {
			return vf("enum", "String() of the value %d of %s is %q", n, d.Name, s)
		}
	}
	if len(r.out.done.Samples) < r.job.Samples {
		r.out.done.Samples = append(r.out.done.Samples, map[string]any{"enum": d.String(), "strings": strs})
	}
	return nil
}

type scanner interface{ Scan(any) error }

// sql checks Value and Scan: v is item i.
func (r *run) sql(d *zs.Decl, e *EnumEntry, v reflect.Value, strs []string, i int, want []*big.Int) *viol {
	m := v.MethodByName("Value")
	if !m.IsValid() {
		return vf("enum", "%s has no Value method", d.Name)
	}
	res := m.Call(nil)
	if !res[1].IsNil() {
		return vf("enum", "Value() of %s.%s fails: %v", d.Name, strs[i], res[1])
	}
	val := res[0].Interface()
	if s, ok := val.(string); !ok || s != strs[i] {
		return vf("enum", "Value() of %s.%s is %v", d.Name, strs[i], val)
	}
	for _, src := range []any{val, []byte(strs[i]), v.Interface()} {
		n := e.New()
		other := (i + 1) % len(want)
		SetLeaf(&zs.Val{K: 'i', N: want[other]}, reflect.ValueOf(n).Elem())
		sc, ok := n.(scanner)
		if !ok {
			return vf("enum", "%s has no Scan method", d.Name)
		}
		if err := sc.Scan(src); err != nil {
			return vf("enum", "Scan(%T %v) of %s: %v", src, src, d.Name, err)
		}
		r.out.done.Evals++
		if s, ok := goEquals(reflect.ValueOf(n).Elem(), &zs.EV{K: 'i', N: want[i]}); !ok {
			return vf("enum", "Scan(%T %v) of %s gives %s, not %v", src, src, d.Name, s, want[i])
		}
	}
	return nil
}

func (r *run) badScan(d *zs.Decl, e *EnumEntry, s string) *viol {
	for _, src := range []any{s, []byte(s), 3, int64(0), 1.5, true} {
		n := e.New()
		before := fmt.Sprint(reflect.ValueOf(n).Elem())
		if err := n.(scanner).Scan(src); err == nil {
			return vf("enum", "Scan(%T %v) of %s reports no error", src, src, d.Name)
		}
		if after := fmt.Sprint(reflect.ValueOf(n).Elem()); after != before {
			return vf("enum", "a failing Scan of %s changes the value", d.Name)
		}
	}
	return nil
}

// enumValues checks enum values inside messages.
func enumValues(r *run, v *zs.Val, rng *zs.Rng) *viol {
	_, bad := conform(r, v, rng)
	return bad
}

// C13: the registry's compilation is the check; here its completeness.
func expose(r *run) *viol {
	n := 0
	for range r.e.New {
		n++
	}
	for range r.e.Consts {
		n++
	}
	r.out.done.Evals++
	r.out.distinct(r.sc.Schema.Text())
	r.out.stat("linked", n)
	if len(r.out.done.Samples) < r.job.Samples {
		r.out.done.Samples = append(r.out.done.Samples, map[string]any{"schema": clip(r.sc.Schema.Text(), 2500)})
	}
	return nil
}

// C17
func concurrent(r *run) *viol {
	type item struct {
		root  string
		in    *zs.Inst
		v     *zs.Val
		bytes []byte
		size  int
	}
	var items []*item
	rng := zs.NewRng(r.sc.Seed, 17)
	for _, root := range r.sc.Schema.Roots {
		in := r.w.Inst(root, nil)
		for k := 0; k < r.job.N; k++ {
			g := &zs.VG{C: r.c, R: rng, Stat: r.out.done.Stats}
			v := g.Root(in)
			if v == nil {
				break
			}
			w, err := r.c.Encode(in, v, 0)
			if err != nil {
				return vf("harness", "%v", err)
			}
			items = append(items, &item{root, in, v, w.Buf, w.N})
		}
	}
	if len(items) == 0 {
		return nil
	}
	// Objects are built beforehand, one per goroutine and item; the model is
	// not touched while goroutines run.
	const G = 8
	type work struct {
		it   *item
		o    object
		f    object
		got  []byte
		size int
		err  error
		perr any
	}
	plan := make([][]*work, G)
	for g := 0; g < G; g++ {
		order := append([]*item(nil), items...)
		zs.Shuffle(rng, order)
		for _, it := range order {
			r.root, r.in = it.root, it.in
			plan[g] = append(plan[g], &work{it: it, o: r.goObj(it.v, rng), f: r.obj()})
		}
	}
	// Arrays of the runtime library, used directly at the same time; all share
	// the array traits.
	var arrays []*prim.Case
	for i := 0; i < 40; i++ {
		x := (&prim.Gen{R: rng, Prop: "C17"}).ArrayCase()
		if x.Run() == nil {
			arrays = append(arrays, x)
		}
	}
	abad := make([]string, G)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < G; g++ {
		wg.Add(1)
		go func(ws []*work) {
			defer wg.Done()
			<-start
			for i, w := range ws {
				for k := i; k < len(arrays) && k < i+2; k++ {
					x := arrays[(k+g)%len(arrays)]
					if b := x.Run(); b != nil {
						abad[g] = b.Msg + "\n" + x.Describe()
					}
				}
				func() {
					defer func() { w.perr = recover() }()
					w.size, w.err = w.o.ZserioBitSize(0)
					if w.err != nil {
						return
					}
					if w.got, w.err = marshal(w.o); w.err != nil {
						return
					}
					w.err = unmarshal(w.got, w.f)
				}()
			}
		}(plan[g])
	}
	close(start)
	wg.Wait()
	for _, m := range abad {
		if m != "" {
			return vf("concurrent", "an array used directly while other goroutines run: %s", m)
		}
	}
	for g := range plan {
		for _, w := range plan[g] {
			r.root, r.in = w.it.root, w.it.in
			r.out.done.Evals++
			// The same, alone.
			ao := r.goObj(w.it.v, zs.NewRng(1))
			asize, aerr := ao.ZserioBitSize(0)
			var abytes []byte
			if aerr == nil {
				abytes, aerr = marshal(ao)
			}
			if w.perr != nil {
				return vf("concurrent", "%s: panic when called from several goroutines: %v", w.it.root, w.perr)
			}
			if (aerr == nil) != (w.err == nil) || aerr == nil && (asize != w.size || !bytes.Equal(abytes, w.got)) {
				return &viol{"concurrent", fmt.Sprintf("%s: called from several goroutines: %d bits, %x, %v; alone: %d bits, %x, %v", w.it.root, w.size, clipB(w.got), w.err, asize, clipB(abytes), aerr), w.it.bytes}
			}
			if aerr != nil {
				continue
			}
			x, err := r.back(w.f)
			if err != nil {
				return &viol{"concurrent", fmt.Sprintf("%s: unmarshalled by several goroutines: %v", w.it.root, err), w.it.bytes}
			}
			if d := zs.Diff(w.it.v, x, "value"); d != "" {
				return &viol{"concurrent", fmt.Sprintf("%s: unmarshalled by several goroutines: %s", w.it.root, d), w.it.bytes}
			}
			if r.out.distinct(r.sc.Key, w.it.root, g, w.it.bytes) && rng.P(.01) {
				r.sample(w.it.v, w.it.bytes, fmt.Sprintf("goroutine %d of %d", g, G))
			}
		}
	}
	return nil
}

// C14: the schema with templates against the one written out.
func template(r *run, v *zs.Val, rng *zs.Rng) *viol {
	e2 := reg[r.sc.Key+"x"]
	if e2 == nil || e2.New[r.root] == nil {
		return vf("harness", "pair of %s not linked", r.root)
	}
	w2 := zs.NewWorld(r.sc.Pair)
	in2 := w2.Inst(r.root, nil)
	b2 := NewBridge(w2)
	o1 := r.goObj(v, rng)
	o2 := e2.New[r.root]().(object)
	b2.ToGo(in2, v, reflect.ValueOf(o2).Elem())
	pos := rng.N(60)
	s1, serr1 := o1.ZserioBitSize(pos)
	s2, serr2 := o2.ZserioBitSize(pos)
	if s1 != s2 || (serr1 == nil) != (serr2 == nil) {
		return vf("template", "bit size %d, %v; written out by hand: %d, %v", s1, serr1, s2, serr2)
	}
	m1, err1 := marshal(o1)
	m2, err2 := marshal(o2)
	if !bytes.Equal(m1, m2) || (err1 == nil) != (err2 == nil) {
		return vf("template", "marshals to %x, %v; written out by hand: %x, %v", clipB(m1), err1, clipB(m2), err2)
	}
	if err1 != nil {
		return nil
	}
	var last1, last2 object
	decode := func(b []byte) *viol {
		f1, f2 := r.obj(), e2.New[r.root]().(object)
		var d1, d2 error
		p1 := guard("decode", func() *viol { d1 = unmarshal(b, f1); return nil })
		p2 := guard("decode", func() *viol { d2 = unmarshal(b, f2); return nil })
		if (p1 == nil) != (p2 == nil) || (d1 == nil) != (d2 == nil) {
			return &viol{"template", fmt.Sprintf("unmarshals with %v; written out by hand: %v", d1, d2), b}
		}
		if p1 != nil || d1 != nil {
			return nil
		}
		x1, xe1 := r.back(f1)
		x2, xe2 := b2.FromGo(in2, reflect.ValueOf(f2).Elem())
		if (xe1 == nil) != (xe2 == nil) {
			return &viol{"template", fmt.Sprintf("unmarshals to %v; written out by hand: %v", xe1, xe2), b}
		}
		if xe1 != nil {
			return nil
		}
		if d := zs.Diff(x1, x2, "value"); d != "" {
			return &viol{"template", "unmarshals to another value than the type written out by hand: " + d, b}
		}
		last1, last2 = f1, f2
		return nil
	}
	if bad := decode(m1); bad != nil {
		return bad
	}
	if last1 != nil {
		if bad := r.twinFuncs(last1, last2, v, in2, w2, b2); bad != nil {
			bad.hex = m1
			return bad
		}
		last1, last2 = nil, nil
	}
	if bad := twinDefaults(r.goObj(v, zs.NewRng(7)), o2); bad != nil {
		return bad
	}
	if r.in.HasTemplates(r.w) && r.out.distinct(r.sc.Key, r.root, m1) && rng.P(.02) {
		r.sample(v, m1, "")
	}
	for k := 0; k < 3; k++ {
		m, _ := mutate(rng, m1)
		r.c.MaxElems, r.c.Lenient = 8*len(m)+200, true
		_, _, rerr := r.c.Decode(r.in, m, 8*len(m), 0)
		wild := r.c.Wrapped || errors.Is(rerr, zs.ErrUndef) // a length or width that overflows
		r.c.MaxElems, r.c.Lenient = 0, false
		if wild || errors.Is(rerr, zs.ErrBomb) {
			continue
		}
		r.out.done.Evals++
		if bad := decode(m); bad != nil {
			return bad
		}
	}
	// A value that cannot be represented.
	y := zs.CloneVal(v)
	r.c.Fill(r.in, y)
	if kind, _ := spoil(r, y, rng); kind != "" {
		o1 = r.goObj(y, rng)
		o2 = e2.New[r.root]().(object)
		b2.ToGo(in2, y, reflect.ValueOf(o2).Elem())
		var m1, m2 []byte
		p1 := guard("encode", func() *viol { m1, err1 = marshal(o1); return nil })
		p2 := guard("encode", func() *viol { m2, err2 = marshal(o2); return nil })
		r.out.done.Evals++
		if (p1 == nil) != (p2 == nil) || p1 == nil && ((err1 == nil) != (err2 == nil) || !bytes.Equal(m1, m2)) {
			return vf("template", "%s: %v; written out by hand: %v", kind, err1, err2)
		}
	}
	return nil
}

// twinFuncs compares the functions of a decoded object and those of its twin.
func (r *run) twinFuncs(o1, o2 object, v *zs.Val, in2 *zs.Inst, w2 *zs.World, b2 *Bridge) *viol {
	type result struct {
		where string
		res   reflect.Value
		bad   *viol
	}
	collect := func(r *run, in *zs.Inst, o object) (out []result, bad *viol) {
		bad = r.walk(in, v, reflect.ValueOf(o).Elem(), "", func(in *zs.Inst, v *zs.Val, src reflect.Value, path string) *viol {
			for _, f := range in.D.Funcs {
				if want, err := r.w.CallFn(in, v, f.Name); err != nil || want.K == 'a' {
					continue
				}
				m := src.Addr().MethodByName(strings.Title(f.Name))
				x := result{where: fmt.Sprintf("function %s %s { return %s; } at %s.", f.Ret, f.Name, f.Body, path)}
				if !m.IsValid() {
					x.bad = vf("template", "it does not exist")
				} else {
					x.bad = guard("call", func() *viol { x.res = m.Call(nil)[0]; return nil })
				}
				out = append(out, x)
			}
			return nil
		})
		return out, bad
	}
	r2 := *r
	r2.w, r2.b, r2.in = w2, b2, in2
	l1, bad1 := collect(r, r.in, o1)
	l2, bad2 := collect(&r2, in2, o2)
	if bad1 != nil || bad2 != nil || len(l1) != len(l2) {
		return vf("harness", "functions of %s: %v %v, %d and %d", r.root, bad1, bad2, len(l1), len(l2))
	}
	r.out.stat("calls", len(l1))
	for i, x := range l1 {
		y := l2[i]
		r.out.done.Evals++
		if x.bad != nil || y.bad != nil {
			if (x.bad == nil) != (y.bad == nil) {
				return vf("template", "%s: %v; written out by hand: %v", x.where, x.bad.text(), y.bad.text())
			}
			continue
		}
		if a, b := plain(x.res), plain(y.res); a != b {
			return vf("template", "%s gives %s; written out by hand: %s", x.where, clip(a, 300), clip(b, 300))
		}
	}
	return nil
}

func (v *viol) text() string {
	if v == nil {
		return "no error"
	}
	return v.msg
}

// plain is a text for the value that a function gives.
func plain(v reflect.Value) string {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	if o, ok := p.Interface().(object); ok {
		b, err := marshal(o)
		return fmt.Sprintf("%x %t", b, err == nil)
	}
	switch {
	case v.CanInt():
		return fmt.Sprint(v.Int())
	case v.CanUint():
		return fmt.Sprint(v.Uint())
	case v.CanFloat():
		return fmt.Sprint(v.Float())
	case v.Kind() == reflect.String:
		return fmt.Sprintf("%q", v.String())
	case v.Kind() == reflect.Bool:
		return fmt.Sprint(v.Bool())
	}
	return v.Kind().String()
}

// twinDefaults loads the default values of an object and of its twin.
func twinDefaults(o1, o2 object) *viol {
	m1, ok1 := o1.(interface{ LoadDefaultValues() error })
	m2, ok2 := o2.(interface{ LoadDefaultValues() error })
	if !ok1 || !ok2 {
		return vf("template", "LoadDefaultValues exists: %t; written out by hand: %t", ok1, ok2)
	}
	var e1, e2 error
	var b1, b2 []byte
	p1 := guard("defaults", func() *viol {
		if e1 = m1.LoadDefaultValues(); e1 == nil {
			b1, e1 = marshal(o1)
		}
		return nil
	})
	p2 := guard("defaults", func() *viol {
		if e2 = m2.LoadDefaultValues(); e2 == nil {
			b2, e2 = marshal(o2)
		}
		return nil
	})
	if (p1 == nil) != (p2 == nil) || p1 == nil && ((e1 == nil) != (e2 == nil) || !bytes.Equal(b1, b2)) {
		return vf("template", "with its default values it marshals to %x, %v; written out by hand: %x, %v", clipB(b1), e1, clipB(b2), e2)
	}
	return nil
}

// sameGo is reflect.DeepEqual, but NaNs are equal.
func sameGo(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		x, y := a.Float(), b.Float()
		return x == y || x != x && y != y
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return sameGo(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !sameGo(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !sameGo(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}
