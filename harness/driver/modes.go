package driver

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"runtime"
	"runtime/debug"
	"runtime/metrics"

	"github.com/woven-planet/go-zserio/zstream"

	"zsverif/zs"
)

func init() {
	modes["roundtrip"] = &mode{value: roundtrip}
	modes["wire"] = &mode{value: wire}
	modes["packed"] = &mode{value: packed}
	modes["bitsize"] = &mode{value: bitsize}
	modes["untrusted"] = &mode{value: untrusted}
	modes["invalid"] = &mode{value: invalid}
	modes["select"] = &mode{value: selection}
	modes["params"] = &mode{value: params}
	modes["exprs"] = &mode{value: exprs, schema: constants, gen: func(g *zs.VG) { g.Moderate = true }}
	modes["consts"] = &mode{value: defaults, schema: constants}
	modes["enums"] = &mode{schema: enums, value: enumValues}
	modes["compile"] = &mode{schema: expose}
	modes["concurrent"] = &mode{schema: concurrent}
	modes["template"] = &mode{value: template}
}

func (r *run) ref(v *zs.Val) (*zs.BW, error) { return r.c.Encode(r.in, v, 0) }

// C01
func roundtrip(r *run, v *zs.Val, rng *zs.Rng) *viol {
	o := r.goObj(v, rng)
	before, err := r.back(o)
	if err != nil {
		return vf("harness", "bridge: %v", err)
	}
	if d := zs.Diff(v, before, "value"); d != "" {
		return vf("harness", "bridge: %s", d)
	}
	b1, err := marshal(o)
	if err != nil {
		return vf("encode", "marshalling a valid value fails: %v", err)
	}
	x, err := r.back(o)
	if err != nil {
		return vf("encode", "marshalling damages the object: %v", err)
	}
	if d := zs.Diff(v, x, "value"); d != "" {
		return vf("encode", "marshalling changes the object: %s", d)
	}
	fresh := r.obj()
	if err := unmarshal(b1, fresh); err != nil {
		return &viol{"decode", fmt.Sprintf("unmarshalling what was marshalled fails: %v", err), b1}
	}
	y, err := r.back(fresh)
	if err != nil {
		return &viol{"decode", fmt.Sprintf("the unmarshalled object is not a value: %v", err), b1}
	}
	if d := zs.Diff(v, y, "value"); d != "" {
		return &viol{"decode", "round trip changes the value: " + d, b1}
	}
	b2, err := marshal(fresh)
	if err != nil {
		return &viol{"encode", fmt.Sprintf("marshalling the unmarshalled object fails: %v", err), b1}
	}
	if !bytes.Equal(b1, b2) {
		return &viol{"encode", fmt.Sprintf("marshalling the unmarshalled object gives other bytes: %x", clipB(b2)), b1}
	}
	if len(b1) > 0 && r.out.distinct(r.sc.Key, r.root, b1) && rng.P(.02) {
		r.sample(v, b1, "")
	}
	return nil
}

func clipB(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

// conform compares encoding and decoding with the reference.
func conform(r *run, v *zs.Val, rng *zs.Rng) ([]byte, *viol) {
	w, err := r.ref(v)
	if err != nil {
		return nil, vf("harness", "reference: %v", err)
	}
	o := r.goObj(v, rng)
	got, err := marshal(o)
	if err != nil {
		return nil, vf("encode", "marshalling a valid value fails: %v (the encoding is %x)", err, clipB(w.Buf))
	}
	if !bytes.Equal(got, w.Buf) {
		return nil, &viol{"encode", fmt.Sprintf("wrong encoding\n  got  %x\n  want %x", clipB(got), clipB(w.Buf)), w.Buf}
	}
	fresh := r.obj()
	if err := unmarshal(w.Buf, fresh); err != nil {
		return nil, &viol{"decode", fmt.Sprintf("unmarshalling a conforming encoding fails: %v", err), w.Buf}
	}
	x, err := r.back(fresh)
	if err != nil {
		return nil, &viol{"decode", fmt.Sprintf("the unmarshalled object is not a value: %v", err), w.Buf}
	}
	if d := zs.Diff(v, x, "value"); d != "" {
		return nil, &viol{"decode", "unmarshalling a conforming encoding gives another value: " + d, w.Buf}
	}
	return w.Buf, nil
}

// C02
func wire(r *run, v *zs.Val, rng *zs.Rng) *viol {
	b, bad := conform(r, v, rng)
	if bad != nil {
		return bad
	}
	// The same at another bit position, where alignment pads differently.
	pos := rng.N(70)
	w, err := r.c.Encode(r.in, v, pos)
	if err != nil {
		return vf("harness", "reference: %v", err)
	}
	bw := &bitWriter{Limit: -1}
	for i := 0; i < pos; i++ {
		bw.w.Bit(i%3 == 0)
	}
	if err := r.goObj(v, rng).MarshalZserio(bw); err != nil {
		return vf("encode", "marshalling at bit %d fails: %v", pos, err)
	}
	var want zs.BW
	for i := 0; i < pos; i++ {
		want.Bit(i%3 == 0)
	}
	for i := 0; i < w.N; i++ {
		want.Bit(w.Buf[i/8]&(0x80>>(i%8)) != 0)
	}
	if bw.w.N != want.N || !bytes.Equal(bw.w.Buf, want.Buf) {
		return &viol{"encode", fmt.Sprintf("wrong encoding at bit %d: %d bits, want %d\n  got  %x\n  want %x", pos, bw.w.N, want.N, clipB(bw.w.Buf), clipB(want.Buf)), want.Buf}
	}
	br := zstream.NewReader(bytes.NewReader(want.Buf))
	for i := 0; i < pos; i++ {
		if _, err := br.ReadBool(); err != nil {
			return vf("harness", "%v", err)
		}
	}
	fresh := r.obj()
	if err := fresh.UnmarshalZserio(br); err != nil {
		return &viol{"decode", fmt.Sprintf("unmarshalling at bit %d fails: %v", pos, err), want.Buf}
	}
	x, err := r.back(fresh)
	if err != nil {
		return &viol{"decode", fmt.Sprintf("unmarshalling at bit %d: not a value: %v", pos, err), want.Buf}
	}
	if d := zs.Diff(v, x, "value"); d != "" {
		return &viol{"decode", fmt.Sprintf("unmarshalling at bit %d: %s", pos, d), want.Buf}
	}
	if at, err := br.Align(1); err == nil && int(at) != pos+w.N {
		return &viol{"decode", fmt.Sprintf("unmarshalling at bit %d stops at bit %d, not %d", pos, at, pos+w.N), want.Buf}
	}
	if len(b) > 0 && r.out.distinct(r.sc.Key, r.root, b) && rng.P(.02) {
		r.sample(v, b, fmt.Sprintf("also at bit %d", pos))
	}
	return nil
}

// C03
func packed(r *run, v *zs.Val, rng *zs.Rng) *viol {
	p, d := r.c.Packed, r.c.Deltas
	b, bad := conform(r, v, rng)
	p, d = r.c.Packed-p, r.c.Deltas-d
	if p == 0 { // nothing packed here
		if bad != nil && bad.kind != "panic" {
			return nil
		}
		return bad
	}
	if bad != nil {
		return bad
	}
	r.out.stat("packed-arrays", p)
	if d > 0 {
		r.out.stat("delta-values", 1)
	}
	if r.out.distinct(r.sc.Key, r.root, b) && rng.P(.02) {
		r.sample(v, b, fmt.Sprintf("%d packed arrays, delta packed: %v", p, d > 0))
	}
	return nil
}

// C04
func bitsize(r *run, v *zs.Val, rng *zs.Rng) *viol {
	var last []byte
	for i := 0; i < 3; i++ {
		pos := 0
		switch i {
		case 1:
			pos = rng.N(64)
		case 2:
			pos = rng.N(2000)
		}
		o := r.goObj(v, rng)
		size, err := o.ZserioBitSize(pos)
		if err != nil {
			return vf("size", "the bit size at %d of a valid value fails: %v", pos, err)
		}
		o2 := r.goObj(v, rng)
		bw := &bitWriter{Limit: -1}
		for i := 0; i < pos; i++ {
			bw.w.Bit(false)
		}
		if err := o2.MarshalZserio(bw); err != nil {
			return nil // another property's matter
		}
		if n := bw.w.N - pos; n != size {
			return &viol{"size", fmt.Sprintf("bit size at position %d is %d, but %d bits are written", pos, size, n), bw.w.Buf[pos/8:]}
		}
		again, err := o2.ZserioBitSize(pos)
		if err != nil || again != size {
			return vf("size", "bit size at %d after marshalling: %d, %v; before: %d", pos, again, err, size)
		}
		last = bw.w.Buf[pos/8:]
		r.out.stat("positions", 1)
	}
	if len(last) > 0 && r.out.distinct(r.sc.Key, r.root, last) && rng.P(.02) {
		r.sample(v, last, "")
	}
	return nil
}

var allocMetric = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocMetric)
	return allocMetric[0].Value.Uint64()
}

// mutate damages a message.
func mutate(rng *zs.Rng, b []byte) ([]byte, string) {
	c := append([]byte(nil), b...)
	switch rng.W(4, 3, 4, 2, 3, 2) {
	case 0: // flip bits
		if len(c) == 0 {
			return []byte{byte(rng.U64())}, "random"
		}
		for i := rng.In(1, 3); i > 0; i-- {
			p := rng.N(8 * len(c))
			c[p/8] ^= 0x80 >> (p % 8)
		}
		return c, "bitflip"
	case 1: // cut
		if len(c) > 0 {
			return c[:rng.N(len(c))], "cut"
		}
		return c, "empty"
	case 2: // interesting byte runs, like huge lengths
		if len(c) == 0 {
			c = make([]byte, 4)
		}
		runs := [][]byte{{0xff, 0xff, 0xff, 0xff, 0xff}, {0x87, 0xff, 0xff, 0xff, 0xff}, {0x87, 0xff, 0xff, 0xff, 0x7f}, {0, 0, 0, 0}, {0x80, 0x80, 0x80, 0x80, 0x80}, {0x7f}, {0xff}, {0x80}, {0xfe}, {0x83, 0xff, 0xff, 0xff, 0xff}, {0x81, 0x80, 0x80, 0x80, 0}}
		run := zs.Pick(rng, runs)
		at := rng.N(len(c))
		if rng.P(.5) { // overwrite
			for i, x := range run {
				if at+i < len(c) {
					c[at+i] = x
				}
			}
		} else {
			c = append(c[:at:at], append(append([]byte(nil), run...), c[at:]...)...)
		}
		return c, "run"
	case 3: // replace a byte
		if len(c) > 0 {
			c[rng.N(len(c))] = byte(rng.U64())
		}
		return c, "byte"
	case 4: // unrelated bytes
		c = make([]byte, rng.N(40))
		for i := range c {
			c[i] = byte(rng.U64())
		}
		if rng.P(.3) {
			for i := range c {
				c[i] = []byte{0xff, 0, 0x80, 0x01}[rng.N(4)]
			}
		}
		return c, "random"
	}
	if len(c) == 0 {
		return c, "empty"
	}
	i := rng.N(len(c)) // repeat a piece
	j := rng.In(i, len(c))
	return append(append(append([]byte(nil), c[:j]...), c[i:j]...), c[j:]...), "repeat"
}

// C05
func untrusted(r *run, v *zs.Val, rng *zs.Rng) *viol {
	w, err := r.ref(v)
	if err != nil {
		return vf("harness", "reference: %v", err)
	}
	for k := 0; k < 12; k++ {
		b, how := mutate(rng, w.Buf)
		if k == 0 {
			b, how = w.Buf, "valid"
		}
		r.out.done.Evals++
		r.out.stat("input-"+how, 1)
		r.c.MaxElems, r.c.Lenient = 8*len(b)+200, true
		_, used, rerr := r.c.Decode(r.in, b, 8*len(b), 0)
		r.c.MaxElems, r.c.Lenient = 0, false
		// sure: go-zserio reads the message as the oracle does.
		sure := !r.c.Wrapped && !errors.Is(rerr, zs.ErrUndef)
		if !sure {
			r.out.stat("values-out-of-range", 1)
		}
		if errors.Is(rerr, zs.ErrBomb) {
			r.out.stat("bomb-skipped", 1)
			continue
		}
		fresh := r.obj()
		var derr error
		progress.Add(1)
		inflight.Store(&message{b, sure})
		a0 := allocated()
		bad := guard("decode", func() *viol { derr = unmarshal(b, fresh); return nil })
		a1 := allocated()
		inflight.Store(nil)
		if bad != nil {
			bad.hex = b
			return bad
		}
		if lim := uint64(16<<20 + 64<<10*len(b)); a1-a0 > lim && sure {
			free()
			return &viol{"memory", fmt.Sprintf("unmarshalling %d bytes allocates %d bytes", len(b), a1-a0), b}
		}
		if errors.Is(rerr, zs.ErrEOF) && derr == nil && sure {
			return &viol{"truncated", "unmarshalling a message that ends too early reports no error", b}
		}
		if derr == nil {
			r.out.stat("accepted", 1)
			var merr error
			if bad := guard("encode", func() *viol { _, merr = marshal(fresh); return nil }); bad != nil {
				bad.hex = b
				return bad
			}
			if merr == nil {
				r.out.stat("remarshalled", 1)
			}
			if bad := guard("size", func() *viol { _, merr = fresh.ZserioBitSize(0); return nil }); bad != nil {
				bad.hex = b
				return bad
			}
		} else {
			r.out.stat("refused", 1)
		}
		// A reader that hands out single bytes, and one that fails within
		// the part that is needed.
		if rerr == nil && used > 0 && sure {
			sr := &slowReader{buf: b}
			f2 := r.obj()
			var serr error
			if bad := guard("decode", func() *viol { serr = f2.UnmarshalZserio(zstream.NewReader(sr)); return nil }); bad != nil {
				bad.hex = b
				return bad
			}
			if (serr == nil) != (derr == nil) {
				return &viol{"reader", fmt.Sprintf("a reader handing out single bytes: %v; else: %v", serr, derr), b}
			}
			cut := rng.N((used + 7) / 8)
			f3 := r.obj()
			sr = &slowReader{buf: b[:cut], Err: errFault}
			if bad := guard("decode", func() *viol { serr = f3.UnmarshalZserio(zstream.NewReader(sr)); return nil }); bad != nil {
				bad.hex = b
				return bad
			}
			if serr == nil {
				return &viol{"reader", fmt.Sprintf("the reader failed after %d of %d bytes, but unmarshalling reports success", cut, (used+7)/8), b}
			}
			r.out.stat("failing-readers", 1)
		}
		if len(b) > 0 && k > 0 && r.out.distinct(r.sc.Key, r.root, b) && rng.P(.005) {
			r.sample(v, b, how)
		}
	}
	return nil
}

func free() {
	runtime.GC()
	debug.FreeOSMemory()
}

// spoil makes a value that its schema cannot represent; "" if it did not.
func spoil(r *run, v *zs.Val, rng *zs.Rng) (kind string, apply func(o object)) {
	var leaves []zs.Leaf
	r.w.Visit(r.in, v, "", func(l zs.Leaf) { leaves = append(leaves, l) })
	if len(leaves) == 0 {
		return "", nil
	}
	for try := 0; try < 6; try++ {
		l := leaves[rng.N(len(leaves))]
		switch {
		case l.Path[len(l.Path)-1] == '?':
			continue
		case l.V.K == 'a':
			if l.F.Array != zs.FixedArray {
				continue
			}
			if n := len(l.V.A); n > 0 && rng.P(.6) {
				l.V.A = l.V.A[:rng.N(n)]
				return "array too short " + l.Path, nil
			} else if n > 0 {
				l.V.A = append(l.V.A, zs.CloneVal(l.V.A[0]))
				return "array too long " + l.Path, nil
			}
		case l.V.K == 'i':
			nt := l.RT.NT()
			lo, hi := zs.Range(nt.Signed, nt.Cont)
			if nt.Dyn {
				lo, hi = zs.Range(nt.Signed, 64)
			}
			rlo, rhi, ok := r.leafRange(l)
			if !ok {
				continue
			}
			var c []*big.Int
			one := big.NewInt(1)
			if rhi.Cmp(hi) < 0 {
				c = append(c, new(big.Int).Add(rhi, one), hi)
				if x := new(big.Int).Lsh(rhi, 1); x.Cmp(hi) < 0 && x.Cmp(rhi) > 0 {
					c = append(c, x)
				}
			}
			if rlo.Cmp(lo) > 0 {
				c = append(c, new(big.Int).Sub(rlo, one), lo)
			}
			if len(c) == 0 {
				continue
			}
			l.V.N = zs.Pick(rng, c)
			return fmt.Sprintf("%v in %s of %v..%v", l.V.N, l.Path, rlo, rhi), nil
		}
	}
	return "", nil
}

func (r *run) leafRange(l zs.Leaf) (lo, hi *big.Int, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(zs.NotDefined); is {
				ok = false
				return
			}
			panic(x)
		}
	}()
	lo, hi = r.c.LeafRange(l.RT, l.Env)
	return lo, hi, lo != nil
}

// C06
func invalid(r *run, v0 *zs.Val, rng *zs.Rng) *viol {
	w, err := r.ref(v0)
	if err != nil {
		return vf("harness", "reference: %v", err)
	}
	// Values the schema cannot represent.
	for k := 0; k < 6; k++ {
		v := zs.CloneVal(v0)
		r.c.Fill(r.in, v)
		kind, _ := spoil(r, v, rng)
		if kind == "" {
			continue
		}
		_, rerr := r.c.Encode(r.in, v, 0)
		var ee zs.EncErr
		if !errors.As(rerr, &ee) {
			r.out.stat("spoilt-unseen", 1)
			continue
		}
		r.out.done.Evals++
		o := r.goObj(v, rng)
		var got []byte
		var merr error
		if bad := guard("encode", func() *viol { got, merr = marshal(o); return nil }); bad != nil {
			bad.msg = kind + ": " + bad.msg
			return bad
		}
		if merr == nil {
			return &viol{"accepted", fmt.Sprintf("%s (%v) is marshalled without an error", kind, ee), got}
		}
		r.out.stat("invalid-values", 1)
		if r.out.distinct(r.sc.Key, r.root, kind, w.Buf) && rng.P(.02) {
			r.sample(v, w.Buf, kind+" => "+clip(merr.Error(), 200))
		}
	}
	if bad := r.brokenBlobs(v0, rng); bad != nil {
		return bad
	}
	if bad := r.brokenUnions(v0, rng); bad != nil {
		return bad
	}
	// Failing writers.
	n := len(w.Buf)
	for k := 0; k < 6 && n > 0; k++ {
		lim := rng.N(n)
		if k == 0 {
			lim = n - 1
		}
		if k == 1 {
			lim = 0
		}
		r.out.done.Evals++
		fw := &faultWriter{Limit: lim}
		o := r.goObj(v0, rng)
		var merr, cerr error
		if bad := guard("encode", func() *viol {
			zw := zstream.NewWriter(fw)
			merr = o.MarshalZserio(zw)
			if merr == nil {
				cerr = zw.Close()
			}
			return nil
		}); bad != nil {
			bad.msg = fmt.Sprintf("writer failing after %d bytes: %s", lim, bad.msg)
			return bad
		}
		if fw.Fails > 0 && merr == nil && cerr == nil || len(fw.buf) > lim {
			return &viol{"fault", fmt.Sprintf("the writer failed after %d of %d bytes, but marshalling reports success", lim, n), w.Buf}
		}
		if merr == nil && cerr == nil {
			return &viol{"fault", fmt.Sprintf("marshalling into a writer of %d bytes reports success although %d bytes are needed", lim, n), w.Buf}
		}
		r.out.stat("failing-writers", 1)
	}
	for k := 0; k < 4 && w.N > 0; k++ {
		lim := rng.N(w.N)
		r.out.done.Evals++
		bw := &bitWriter{Limit: lim}
		o := r.goObj(v0, rng)
		var merr error
		if bad := guard("encode", func() *viol { merr = o.MarshalZserio(bw); return nil }); bad != nil {
			return bad
		}
		if merr == nil {
			return &viol{"fault", fmt.Sprintf("the writer failed at bit %d of %d, but marshalling reports success", lim, w.N), w.Buf}
		}
		r.out.stat("failing-writers", 1)
	}
	return nil
}

// goLeaves lists addressable Go values of blob fields that are encoded.
func (r *run) goBlobs(in *zs.Inst, v *zs.Val, src reflect.Value, out *[]reflect.Value) {
	for i, x := range v.O {
		if x == nil {
			continue
		}
		f := in.D.Fields[i]
		rt := r.w.F(in, i)
		if rt.K != "comp" && rt.K != "extern" && rt.K != "bytes" {
			continue
		}
		d := r.b.field(src, f.Name, false)
		if f.Optional {
			d = d.Elem()
		}
		one := func(x *zs.Val, d reflect.Value) {
			if rt.K == "comp" {
				r.goBlobs(rt.In, x, d, out)
			} else if !d.IsNil() {
				*out = append(*out, d)
			}
		}
		if f.Array == zs.NoArray {
			one(x, d)
			continue
		}
		for k, y := range x.A {
			one(y, d.Index(k))
		}
	}
}

func (r *run) brokenBlobs(v *zs.Val, rng *zs.Rng) *viol {
	o := r.goObj(v, rng)
	var blobs []reflect.Value
	r.goBlobs(r.in, v, reflect.ValueOf(o).Elem(), &blobs)
	if len(blobs) == 0 {
		return nil
	}
	d := blobs[rng.N(len(blobs))]
	e := d.Elem()
	what := ""
	mustFail := true
	if n := e.FieldByName("ByteSize"); n.IsValid() {
		k := getNum(n)
		switch rng.N(3) {
		case 0:
			setNum(n, k+uint64(rng.In(1, 9)))
			what = fmt.Sprintf("bytes with ByteSize %d and %d bytes", k+1, k)
		case 1:
			if k == 0 {
				return nil
			}
			setNum(n, k-1)
			what = fmt.Sprintf("bytes with ByteSize %d and %d bytes", k-1, k)
		case 2:
			d.Set(reflect.Zero(d.Type()))
			what, mustFail = "nil bytes", false
		}
	} else {
		n := e.FieldByName("BitSize")
		k := getNum(n)
		buf := e.FieldByName("Buffer").Bytes()
		switch rng.N(3) {
		case 0:
			setNum(n, uint64(8*len(buf)+rng.In(1, 20)))
			what = fmt.Sprintf("extern with BitSize %d and %d bytes", getNum(n), len(buf))
		case 1:
			if len(buf) == 0 {
				return nil
			}
			e.FieldByName("Buffer").SetBytes(buf[:len(buf)-1])
			what = fmt.Sprintf("extern with BitSize %d and %d bytes", k, len(buf)-1)
		case 2:
			d.Set(reflect.Zero(d.Type()))
			what, mustFail = "nil extern", false
		}
	}
	r.out.done.Evals++
	var merr error
	var got []byte
	if bad := guard("encode", func() *viol { got, merr = marshal(o); return nil }); bad != nil {
		bad.msg = what + ": " + bad.msg
		return bad
	}
	r.out.stat("broken-blobs", 1)
	if merr == nil && mustFail {
		return &viol{"accepted", what + " is marshalled without an error", got}
	}
	return nil
}

// goUnions lists the Go values of unions that are encoded.
func (r *run) goUnions(in *zs.Inst, v *zs.Val, src reflect.Value, out *[]reflect.Value) {
	if in.D.Kind == "union" {
		*out = append(*out, src)
	}
	for i, x := range v.O {
		if x == nil {
			continue
		}
		f := in.D.Fields[i]
		rt := r.w.F(in, i)
		if rt.K != "comp" {
			continue
		}
		d := r.b.field(src, f.Name, false)
		if f.Optional {
			d = d.Elem()
		}
		if f.Array == zs.NoArray {
			r.goUnions(rt.In, x, d, out)
			continue
		}
		for k, y := range x.A {
			r.goUnions(rt.In, y, d.Index(k), out)
		}
	}
}

func (r *run) brokenUnions(v *zs.Val, rng *zs.Rng) *viol {
	o := r.goObj(v, rng)
	var us []reflect.Value
	r.goUnions(r.in, v, reflect.ValueOf(o).Elem(), &us)
	if len(us) == 0 {
		return nil
	}
	d := us[rng.N(len(us))].FieldByName("UnionChoice")
	bad := uint64(0)
	what := "a union without a selected branch"
	if rng.P(.5) {
		bad = uint64(zs.Pick(rng, []int{100, 1 << 20, 255, 1 << 33}))
		what = fmt.Sprintf("a union with branch %d selected", bad)
	}
	d.SetUint(bad)
	r.out.done.Evals++
	var merr error
	var got []byte
	if bad := guard("encode", func() *viol { got, merr = marshal(o); return nil }); bad != nil {
		bad.msg = what + ": " + bad.msg
		return bad
	}
	r.out.stat("broken-unions", 1)
	if merr == nil {
		return &viol{"accepted", what + " is marshalled without an error", got}
	}
	return nil
}

// C10
func selection(r *run, v *zs.Val, rng *zs.Rng) *viol {
	b, bad := conform(r, v, rng)
	if bad != nil {
		return bad
	}
	// Reuse of an object that holds another value.
	g := &zs.VG{C: r.c, R: rng}
	o := r.obj()
	for k := rng.In(1, 2); k > 0; k-- {
		v1 := g.Root(r.in)
		if v1 == nil {
			return nil
		}
		w1, err := r.ref(v1)
		if err != nil {
			return vf("harness", "%v", err)
		}
		if rng.P(.7) {
			if err := unmarshal(w1.Buf, o); err != nil {
				return &viol{"decode", fmt.Sprintf("unmarshalling a conforming encoding fails: %v", err), w1.Buf}
			}
		} else {
			o = r.goObj(v1, rng)
		}
	}
	if err := unmarshal(b, o); err != nil {
		return &viol{"decode", fmt.Sprintf("unmarshalling into a used object fails: %v", err), b}
	}
	x, err := r.back(o)
	if err != nil {
		return &viol{"reuse", fmt.Sprintf("unmarshalling into a used object: not a value: %v", err), b}
	}
	if d := zs.Diff(v, x, "value"); d != "" {
		return &viol{"reuse", "unmarshalling into a used object gives another value: " + d, b}
	}
	again, err := marshal(o)
	if err != nil || !bytes.Equal(again, b) {
		return &viol{"reuse", fmt.Sprintf("a reused object marshals to %x, %v", clipB(again), err), b}
	}
	r.out.stat("reused", 1)
	// No case selected, on both sides.
	for k := 0; k < 4; k++ {
		y := zs.CloneVal(v)
		r.c.Fill(r.in, y)
		var ints []zs.Leaf
		r.w.Visit(r.in, y, "", func(l zs.Leaf) {
			if l.V.K == 'i' && l.Path[len(l.Path)-1] != '?' && l.F.Array == zs.NoArray {
				ints = append(ints, l)
			}
		})
		if len(ints) == 0 {
			break
		}
		l := ints[rng.N(len(ints))]
		if lo, hi, ok := r.leafRange(l); ok {
			l.V.N = rng.BigIn(lo, hi)
		}
		_, rerr := r.c.Encode(r.in, y, 0)
		var ee zs.EncErr
		if errors.As(rerr, &ee) && ee.Why == "no case" {
			r.out.done.Evals++
			r.out.stat("no-case", 1)
			if got, err := marshal(r.goObj(y, rng)); err == nil {
				return &viol{"nocase", fmt.Sprintf("%s = %v: no case matches and there is no default, but marshalling succeeds", l.Path, l.V.N), got}
			}
		}
	}
	for k := 0; k < 6; k++ {
		m, _ := mutate(rng, b)
		r.c.MaxElems = 8*len(m) + 200
		_, _, rerr := r.c.Decode(r.in, m, 8*len(m), 0)
		r.c.MaxElems = 0
		if errors.Is(rerr, zs.ErrBranch) {
			r.out.done.Evals++
			r.out.stat("unknown-branch", 1)
			if err := unmarshal(m, r.obj()); err == nil {
				return &viol{"nocase", "unmarshalling an unknown branch succeeds", m}
			}
		}
	}
	if len(b) > 0 && r.out.distinct(r.sc.Key, r.root, b) && rng.P(.02) {
		r.sample(v, b, "")
	}
	return nil
}

// C19
func params(r *run, v *zs.Val, rng *zs.Rng) *viol {
	r.b.CheckParams = true
	defer func() { r.b.CheckParams = false }()
	w, err := r.ref(v)
	if err != nil {
		return vf("harness", "reference: %v", err)
	}
	o := r.goObj(v, rng)
	pos := rng.N(40)
	size, serr := o.ZserioBitSize(pos)
	got, err := marshal(o)
	if err != nil {
		return vf("encode", "marshalling a valid value fails: %v", err)
	}
	if !bytes.Equal(got, w.Buf) {
		return &viol{"encode", fmt.Sprintf("wrong encoding\n  got  %x\n  want %x", clipB(got), clipB(w.Buf)), w.Buf}
	}
	wp, err := r.c.Encode(r.in, v, pos)
	if err != nil {
		return vf("harness", "reference: %v", err)
	}
	if serr != nil || size != wp.N {
		return &viol{"size", fmt.Sprintf("bit size at %d is %d, %v; want %d", pos, size, serr, wp.N), w.Buf}
	}
	fresh := r.obj()
	if err := unmarshal(w.Buf, fresh); err != nil {
		return &viol{"decode", fmt.Sprintf("unmarshalling a conforming encoding fails: %v", err), w.Buf}
	}
	x, err := r.back(fresh)
	if err != nil {
		return &viol{"decode", fmt.Sprintf("unmarshalled object: %v", err), w.Buf}
	}
	if d := zs.Diff(v, x, "value"); d != "" {
		return &viol{"decode", "unmarshalling gives another value: " + d, w.Buf}
	}
	if r.in.HasParams(r.w) {
		if r.out.distinct(r.sc.Key, r.root, w.Buf) && rng.P(.02) {
			r.sample(v, w.Buf, "")
		}
	}
	return nil
}
