// Package driver runs generated code against the reference model. It is linked
// with code that go-zserio generated for random schemas.
package driver

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strings"

	"zsverif/zs"
)

// Bridge converts between model values and generated Go objects.
type Bridge struct {
	W *zs.World
	C *zs.Codec
	// R, if set, varies what is not significant (nil or empty slices).
	R *zs.Rng
	// CheckParams compares the parameters of decoded objects.
	CheckParams bool
	idx         map[idxKey]int
}

type idxKey struct {
	t     reflect.Type
	name  string
	param bool
}

// NewBridge makes a bridge.
func NewBridge(w *zs.World) *Bridge {
	return &Bridge{W: w, C: &zs.Codec{W: w}, idx: map[idxKey]int{}}
}

func canon(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

type bridgeErr struct{ msg string }

func bfail(f string, a ...any) { panic(bridgeErr{fmt.Sprintf(f, a...)}) }

func (b *Bridge) field(v reflect.Value, name string, param bool) reflect.Value {
	k := idxKey{v.Type(), name, param}
	if i, ok := b.idx[k]; ok {
		return v.Field(i)
	}
	t := v.Type()
	found := -1
	for i := 0; i < t.NumField(); i++ {
		tag, ok := t.Field(i).Tag.Lookup("json")
		if ok != param && ok && tag == name {
			found = i
			break
		}
	}
	if found < 0 {
		for i := 0; i < t.NumField(); i++ {
			if canon(t.Field(i).Name) == canon(name) {
				found = i
				break
			}
		}
	}
	if found < 0 {
		bfail("type %v has no field for %s", t, name)
	}
	b.idx[k] = found
	return v.Field(found)
}

// ToGo fills dst (a struct) with v.
func (b *Bridge) ToGo(in *zs.Inst, v *zs.Val, dst reflect.Value) {
	if in.D.Kind == "union" {
		dst.FieldByName("UnionChoice").SetUint(uint64(v.Tag + 1))
	}
	for i, x := range v.O {
		if x == nil {
			continue
		}
		f := in.D.Fields[i]
		rt := b.W.F(in, i)
		d := b.field(dst, f.Name, false)
		if f.Optional {
			p := reflect.New(d.Type().Elem())
			d.Set(p)
			d = p.Elem()
		}
		if f.Array == zs.NoArray {
			b.elem(rt, x, d)
			continue
		}
		n := len(x.A)
		if n == 0 && b.R != nil && b.R.P(.5) {
			continue
		}
		s := reflect.MakeSlice(d.Type(), n, n)
		for k, y := range x.A {
			b.elem(rt, y, s.Index(k))
		}
		d.Set(s)
	}
}

func (b *Bridge) elem(rt *zs.RT, v *zs.Val, d reflect.Value) {
	if rt.K == "comp" {
		b.ToGo(rt.In, v, d)
		return
	}
	SetLeaf(v, d)
}

// SetLeaf stores a leaf value.
func SetLeaf(v *zs.Val, d reflect.Value) {
	switch v.K {
	case 'i':
		switch d.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			if v.N.IsInt64() {
				d.SetInt(v.N.Int64())
			} else {
				d.SetInt(int64(v.N.Uint64()))
			}
			if new(big.Int).SetInt64(d.Int()).Cmp(v.N) != 0 {
				bfail("%v does not fit %v", v.N, d.Type())
			}
		default:
			d.SetUint(v.N.Uint64())
			if v.N.Sign() < 0 || d.Uint() != v.N.Uint64() {
				bfail("%v does not fit %v", v.N, d.Type())
			}
		}
	case 'b':
		d.SetBool(v.B)
	case 'f':
		d.SetFloat(math.Float64frombits(v.F))
	case 's':
		d.SetString(string(v.S))
	case 'y':
		p := reflect.New(d.Type().Elem())
		p.Elem().FieldByName("Buffer").SetBytes(append([]byte{}, v.S...))
		setNum(p.Elem().FieldByName("ByteSize"), uint64(len(v.S)))
		d.Set(p)
	case 'x':
		p := reflect.New(d.Type().Elem())
		p.Elem().FieldByName("Buffer").SetBytes(append([]byte{}, v.S...))
		setNum(p.Elem().FieldByName("BitSize"), v.Bits)
		d.Set(p)
	default:
		bfail("leaf %c", v.K)
	}
}

func setNum(d reflect.Value, n uint64) {
	if d.CanInt() {
		d.SetInt(int64(n))
	} else {
		d.SetUint(n)
	}
}

func getNum(d reflect.Value) uint64 {
	if d.CanInt() {
		return uint64(d.Int())
	}
	return d.Uint()
}

// GetLeaf reads a leaf; nil for a nil pointer.
func GetLeaf(rt *zs.RT, d reflect.Value) *zs.Val {
	switch rt.K {
	case "bool":
		return &zs.Val{K: 'b', B: d.Bool()}
	case "f16", "f32", "f64":
		return &zs.Val{K: 'f', F: math.Float64bits(d.Float())}
	case "string":
		return &zs.Val{K: 's', S: []byte(d.String())}
	case "bytes":
		if d.IsNil() {
			return nil
		}
		s := d.Elem().FieldByName("Buffer").Bytes()
		if n := getNum(d.Elem().FieldByName("ByteSize")); n != uint64(len(s)) {
			bfail("bytes: ByteSize %d, buffer %d", n, len(s))
		}
		return &zs.Val{K: 'y', S: append([]byte(nil), s...)}
	case "extern":
		if d.IsNil() {
			return nil
		}
		s := d.Elem().FieldByName("Buffer").Bytes()
		n := getNum(d.Elem().FieldByName("BitSize"))
		if uint64(len(s)) < (n+7)/8 {
			bfail("extern: BitSize %d, buffer %d", n, len(s))
		}
		return &zs.Val{K: 'x', S: append([]byte(nil), s[:(n+7)/8]...), Bits: n}
	}
	if d.CanInt() {
		return &zs.Val{K: 'i', N: big.NewInt(d.Int())}
	}
	return &zs.Val{K: 'i', N: new(big.Int).SetUint64(d.Uint())}
}

// FromGo reads an object. The error tells that the object makes no sense as a
// value of the type.
func (b *Bridge) FromGo(in *zs.Inst, src reflect.Value) (v *zs.Val, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case bridgeErr:
				err = fmt.Errorf("%s", e.msg)
			case zs.NotDefined:
				err = fmt.Errorf("undefined: %s", e.Why)
			default:
				panic(r)
			}
		}
	}()
	return b.from(in, nil, src), nil
}

func (b *Bridge) from(in *zs.Inst, p []*zs.EV, src reflect.Value) *zs.Val {
	v := &zs.Val{K: 'o', P: p, O: make([]*zs.Val, len(in.D.Fields))}
	env := &zs.Env{W: b.W, In: in, V: v}
	if b.CheckParams {
		b.params(in, p, src)
	}
	switch in.D.Kind {
	case "union":
		v.Tag = int(src.FieldByName("UnionChoice").Uint()) - 1
		if v.Tag < 0 || v.Tag >= len(v.O) {
			bfail("union choice %d", v.Tag+1)
		}
		b.fromField(in, v.Tag, v, env, src)
	case "choice":
		f, ok := b.W.Branch(in, v)
		if !ok {
			bfail("no case selected")
		}
		v.Tag = f
		if f >= 0 {
			b.fromField(in, f, v, env, src)
		}
	default:
		for i := range in.D.Fields {
			b.fromField(in, i, v, env, src)
		}
	}
	return v
}

func (b *Bridge) params(in *zs.Inst, p []*zs.EV, src reflect.Value) {
	for i, pa := range in.D.Params {
		d := b.field(src, pa.Name, true)
		rt := b.W.Pt(in, i)
		switch rt.K {
		case "u", "i", "vu", "vi", "enum", "mask":
			if x := GetLeaf(rt, d); x.N.Cmp(p[i].N) != 0 {
				bfail("parameter %s of %s is %v, not %v", pa.Name, in.D.Name, x.N, p[i].N)
			}
		case "bool":
			if d.Bool() != p[i].B {
				bfail("parameter %s of %s is %v", pa.Name, in.D.Name, d.Bool())
			}
		}
	}
}

func (b *Bridge) fromField(in *zs.Inst, i int, v *zs.Val, env *zs.Env, src reflect.Value) {
	f := in.D.Fields[i]
	rt := b.W.F(in, i)
	if f.If != nil && !b.W.Eval(env, f.If).B {
		return
	}
	d := b.field(src, f.Name, false)
	if f.Optional {
		if d.IsNil() {
			return
		}
		d = d.Elem()
	}
	get := func(d reflect.Value, env *zs.Env) *zs.Val {
		if rt.K == "comp" {
			return b.from(rt.In, b.C.Args(rt, env), d)
		}
		return GetLeaf(rt, d)
	}
	if f.Array == zs.NoArray {
		v.O[i] = get(d, env)
		return
	}
	a := &zs.Val{K: 'a'}
	v.O[i] = a
	for k := 0; k < d.Len(); k++ {
		e := *env
		e.Index, e.HasIndex = k, true
		a.A = append(a.A, get(d.Index(k), &e))
	}
}
