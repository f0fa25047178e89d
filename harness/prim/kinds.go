// Package prim checks the runtime library (ztype and zstream) against a model
// in which a stream is a list of bits.
package prim

import (
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"strconv"

	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/zstream"
	"github.com/woven-planet/go-zserio/ztype"

	"zsverif/zs"
)

// Op is one operation on a stream. V is a decimal number, F the bits of a
// floating point number.
type Op struct {
	K string `json:"k"`
	N int    `json:"n,omitempty"`
	V string `json:"v,omitempty"`
	F uint64 `json:"f,omitempty"`
	B []byte `json:"b,omitempty"`
	U uint64 `json:"u,omitempty"`
	T bool   `json:"traits,omitempty"` // through the array traits
}

func (o *Op) String() string {
	s := o.K
	if o.N != 0 {
		s += fmt.Sprintf(":%d", o.N)
	}
	if o.T {
		s += "(traits)"
	}
	if o.V != "" {
		s += " " + o.V
	}
	if o.F != 0 {
		s += fmt.Sprintf(" float %#x", o.F)
	}
	if o.B != nil || o.U != 0 {
		s += fmt.Sprintf(" %x size %d", o.B, o.U)
	}
	return s
}

func (o *Op) big() *big.Int {
	n, ok := new(big.Int).SetString(o.V, 10)
	if !ok {
		return new(big.Int)
	}
	return n
}

// Bits is a list of bits, one per byte.
type Bits []byte

// AddUint appends the n low bits of v.
func (b *Bits) AddUint(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		*b = append(*b, byte(v>>i&1))
	}
}

// AddBytes appends bytes.
func (b *Bits) AddBytes(p []byte) {
	for _, x := range p {
		b.AddUint(uint64(x), 8)
	}
}

// Pack makes bytes, padded with zero bits.
func (b Bits) Pack() []byte {
	out := make([]byte, (len(b)+7)/8)
	for i, x := range b {
		out[i/8] |= x << (7 - i%8)
	}
	return out
}

// Unpack makes bits of bytes.
func Unpack(p []byte) Bits {
	var b Bits
	b.AddBytes(p)
	return b
}

var errEnd = errors.New("end of the bits")

// src reads bits.
type src struct {
	b   Bits
	pos int
}

func (s *src) uint(n int) (uint64, error) {
	if s.pos+n > len(s.b) {
		return 0, errEnd
	}
	var v uint64
	for i := 0; i < n; i++ {
		v = v<<1 | uint64(s.b[s.pos])
		s.pos++
	}
	return v, nil
}

func (s *src) bytes(n int) ([]byte, error) {
	if s.pos+8*n > len(s.b) {
		return nil, errEnd
	}
	out := make([]byte, n)
	for i := range out {
		v, _ := s.uint(8)
		out[i] = byte(v)
	}
	return out, nil
}

// kind describes an operation.
type kind struct {
	write func(w zserio.Writer, o *Op) error
	read  func(r zserio.Reader, o *Op) (string, error)
	// enc is the expected effect of write at a bit position; nil, false when
	// the operation must be refused.
	enc func(o *Op, pos int) (Bits, bool)
	// dec is the expected effect of read.
	dec func(s *src, o *Op) (string, error)
	// size is what the library reports as the number of bits; ok false when
	// the library has no such function.
	size func(o *Op, pos int) (n int, ok bool, err error)
	// strictSize: the size function refuses what write refuses.
	strictSize bool
	// array runs a case about a whole array of such elements.
	array func(c *Case) *Bad
}

var varKinds = map[string]int{"varint": 9, "varint16": 2, "varint32": 4, "varint64": 8, "varuint": 9, "varuint16": 2, "varuint32": 4, "varuint64": 8, "varsize": 5}

// VarKinds in a fixed order.
var VarKinds = []string{"varint", "varint16", "varint32", "varint64", "varuint", "varuint16", "varuint32", "varuint64", "varsize"}

func fmtI[T int8 | int16 | int32 | int64](v T, err error) (string, error) {
	return strconv.FormatInt(int64(v), 10), err
}

func fmtU[T uint8 | uint16 | uint32 | uint64](v T, err error) (string, error) {
	return strconv.FormatUint(uint64(v), 10), err
}

func fmtF32(v float32, err error) (string, error) {
	return fmt.Sprintf("f%08x", math.Float32bits(v)), err
}

func fmtF64(v float64, err error) (string, error) {
	return fmt.Sprintf("f%016x", math.Float64bits(v)), err
}

func fmtBlob(b []byte, n uint64) string { return fmt.Sprintf("%d:%x", n, b) }

// traits wraps array traits of one type.
func traits[T any, Y ztype.IArrayTraits[T]](y Y, get func(o *Op) T, show func(T, error) (string, error)) (func(zserio.Writer, *Op) error, func(zserio.Reader, *Op) (string, error), func(*Op, int) (int, bool, error), func(*Case) *Bad) {
	return func(w zserio.Writer, o *Op) error { return y.Write(w, get(o)) },
		func(r zserio.Reader, o *Op) (string, error) { return show(y.Read(r, 0)) },
		func(o *Op, pos int) (int, bool, error) { return y.BitSizeOf(get(o), pos), true, nil },
		func(c *Case) *Bad { return runArray(c, y, get, show) }
}

type rw struct {
	w func(zserio.Writer, *Op) error
	r func(zserio.Reader, *Op) (string, error)
	s func(*Op, int) (int, bool, error)
	a func(*Case) *Bad
}

func mk(w func(zserio.Writer, *Op) error, r func(zserio.Reader, *Op) (string, error), s func(*Op, int) (int, bool, error), a func(*Case) *Bad) rw {
	return rw{w, r, s, a}
}

func i64(o *Op) int64  { return o.big().Int64() }
func u64(o *Op) uint64 { return o.big().Uint64() }

func signedSize(max int) func(o *Op, pos int) (int, bool, error) {
	return func(o *Op, pos int) (int, bool, error) {
		n, err := ztype.SignedBitSize(i64(o), max)
		return n, true, err
	}
}

func unsignedSize(max int) func(o *Op, pos int) (int, bool, error) {
	return func(o *Op, pos int) (int, bool, error) {
		n, err := ztype.UnsignedBitSize(u64(o), max)
		return n, true, err
	}
}

var varDirect = map[string]rw{
	"varint": mk(func(w zserio.Writer, o *Op) error { return ztype.WriteVarint(w, i64(o)) },
		func(r zserio.Reader, o *Op) (string, error) { return fmtI(ztype.ReadVarint(r)) }, signedSize(9), nil),
	"varint16": mk(func(w zserio.Writer, o *Op) error { return ztype.WriteVarint16(w, int16(i64(o))) },
		func(r zserio.Reader, o *Op) (string, error) { return fmtI(ztype.ReadVarint16(r)) }, signedSize(2), nil),
	"varint32": mk(func(w zserio.Writer, o *Op) error { return ztype.WriteVarint32(w, int32(i64(o))) },
		func(r zserio.Reader, o *Op) (string, error) { return fmtI(ztype.ReadVarint32(r)) }, signedSize(4), nil),
	"varint64": mk(func(w zserio.Writer, o *Op) error { return ztype.WriteVarint64(w, i64(o)) },
		func(r zserio.Reader, o *Op) (string, error) { return fmtI(ztype.ReadVarint64(r)) }, signedSize(8), nil),
	"varuint": mk(func(w zserio.Writer, o *Op) error { return ztype.WriteVaruint(w, u64(o)) },
		func(r zserio.Reader, o *Op) (string, error) { return fmtU(ztype.ReadVaruint(r)) }, unsignedSize(9), nil),
	"varuint16": mk(func(w zserio.Writer, o *Op) error { return ztype.WriteVaruint16(w, uint16(u64(o))) },
		func(r zserio.Reader, o *Op) (string, error) { return fmtU(ztype.ReadVaruint16(r)) }, unsignedSize(2), nil),
	"varuint32": mk(func(w zserio.Writer, o *Op) error { return ztype.WriteVaruint32(w, uint32(u64(o))) },
		func(r zserio.Reader, o *Op) (string, error) { return fmtU(ztype.ReadVaruint32(r)) }, unsignedSize(4), nil),
	"varuint64": mk(func(w zserio.Writer, o *Op) error { return ztype.WriteVaruint64(w, u64(o)) },
		func(r zserio.Reader, o *Op) (string, error) { return fmtU(ztype.ReadVaruint64(r)) }, unsignedSize(8), nil),
	"varsize": mk(func(w zserio.Writer, o *Op) error { return ztype.WriteVarsize(w, u64(o)) },
		func(r zserio.Reader, o *Op) (string, error) { return fmtU(ztype.ReadVarsize(r)) }, unsignedSize(5), nil),
}

var varTraits map[string]rw

func init() {
	varTraits = map[string]rw{
		"varint":    mk(traits(ztype.ArrayTraits.VarInt, i64, fmtI[int64])),
		"varint16":  mk(traits(ztype.ArrayTraits.VarInt16, func(o *Op) int16 { return int16(i64(o)) }, fmtI[int16])),
		"varint32":  mk(traits(ztype.ArrayTraits.VarInt32, func(o *Op) int32 { return int32(i64(o)) }, fmtI[int32])),
		"varint64":  mk(traits(ztype.ArrayTraits.VarInt64, i64, fmtI[int64])),
		"varuint":   mk(traits(ztype.ArrayTraits.VarUInt, u64, fmtU[uint64])),
		"varuint16": mk(traits(ztype.ArrayTraits.VarUInt16, func(o *Op) uint16 { return uint16(u64(o)) }, fmtU[uint16])),
		"varuint32": mk(traits(ztype.ArrayTraits.VarUInt32, func(o *Op) uint32 { return uint32(u64(o)) }, fmtU[uint32])),
		"varuint64": mk(traits(ztype.ArrayTraits.VarUInt64, u64, fmtU[uint64])),
		"varsize":   mk(traits(ztype.ArrayTraits.VarSize, u64, fmtU[uint64])),
	}
}

// GoRange is the range of the Go type that holds a variable-length integer.
func GoRange(k string) (lo, hi *big.Int) {
	switch k {
	case "varint", "varint64":
		return zs.Range(true, 64)
	case "varint16":
		return zs.Range(true, 16)
	case "varint32":
		return zs.Range(true, 32)
	case "varuint16":
		return zs.Range(false, 16)
	case "varuint32":
		return zs.Range(false, 32)
	}
	return zs.Range(false, 64)
}

func varKind(name string, traits bool) *kind {
	x := varDirect[name]
	if traits {
		x = varTraits[name]
	}
	return &kind{write: x.w, read: x.r, size: x.s, array: x.a, strictSize: !traits && name != "varsize",
		enc: func(o *Op, pos int) (Bits, bool) {
			b := zs.VarBytes(name, o.big())
			if b == nil {
				return nil, false
			}
			return Unpack(b), true
		},
		dec: func(s *src, o *Op) (string, error) {
			var end error
			n := zs.VarDecode(name, func() byte {
				v, err := s.uint(8)
				if err != nil {
					end = err
				}
				return byte(v)
			})
			if end != nil {
				return "", end
			}
			if _, hi := zs.VarRange(name); name == "varsize" && n.Cmp(hi) > 0 {
				return "", errors.New("varsize out of range")
			}
			return n.String(), nil
		}}
}

func fixedWriter(o *Op, signed bool) rw {
	if signed {
		switch o.N {
		case 8:
			return mk(traits(ztype.ArrayTraits.Int8, func(o *Op) int8 { return int8(i64(o)) }, fmtI[int8]))
		case 16:
			return mk(traits(ztype.ArrayTraits.Int16, func(o *Op) int16 { return int16(i64(o)) }, fmtI[int16]))
		case 32:
			return mk(traits(ztype.ArrayTraits.Int32, func(o *Op) int32 { return int32(i64(o)) }, fmtI[int32]))
		}
		return mk(traits(ztype.ArrayTraits.Int64, i64, fmtI[int64]))
	}
	switch o.N {
	case 8:
		return mk(traits(ztype.ArrayTraits.UInt8, func(o *Op) uint8 { return uint8(u64(o)) }, fmtU[uint8]))
	case 16:
		return mk(traits(ztype.ArrayTraits.UInt16, func(o *Op) uint16 { return uint16(u64(o)) }, fmtU[uint16]))
	case 32:
		return mk(traits(ztype.ArrayTraits.UInt32, func(o *Op) uint32 { return uint32(u64(o)) }, fmtU[uint32]))
	}
	return mk(traits(ztype.ArrayTraits.UInt64, u64, fmtU[uint64]))
}

// bitTraits are the traits of a bit field, with the Go type the generator
// would choose.
func bitTraits(o *Op, signed bool) rw { return bitTab[b2i(signed)][uint8(o.N)] }

// bitTab holds one instance of each; all goroutines share them.
var bitTab [2][256]rw

func init() {
	for n := range 256 {
		bitTab[0][n] = newBitTraits(uint8(n), false)
		bitTab[1][n] = newBitTraits(uint8(n), true)
	}
}

func newBitTraits(n uint8, signed bool) rw {
	if signed {
		switch {
		case n <= 8:
			return mk(traits(ztype.GetSignedBitFieldArrayTraits[int8](n), func(o *Op) int8 { return int8(i64(o)) }, fmtI[int8]))
		case n <= 16:
			return mk(traits(ztype.GetSignedBitFieldArrayTraits[int16](n), func(o *Op) int16 { return int16(i64(o)) }, fmtI[int16]))
		case n <= 32:
			return mk(traits(ztype.GetSignedBitFieldArrayTraits[int32](n), func(o *Op) int32 { return int32(i64(o)) }, fmtI[int32]))
		}
		return mk(traits(ztype.GetSignedBitFieldArrayTraits[int64](n), i64, fmtI[int64]))
	}
	switch {
	case n <= 8:
		return mk(traits(ztype.GetBitFieldArrayTraits[uint8](n), func(o *Op) uint8 { return uint8(u64(o)) }, fmtU[uint8]))
	case n <= 16:
		return mk(traits(ztype.GetBitFieldArrayTraits[uint16](n), func(o *Op) uint16 { return uint16(u64(o)) }, fmtU[uint16]))
	case n <= 32:
		return mk(traits(ztype.GetBitFieldArrayTraits[uint32](n), func(o *Op) uint32 { return uint32(u64(o)) }, fmtU[uint32]))
	}
	return mk(traits(ztype.GetBitFieldArrayTraits[uint64](n), u64, fmtU[uint64]))
}

func encInt(signed bool) func(o *Op, pos int) (Bits, bool) {
	return func(o *Op, pos int) (Bits, bool) {
		if o.N < 1 || o.N > 64 {
			return nil, false
		}
		n := o.big()
		lo, hi := zs.Range(signed, o.N)
		if n.Cmp(lo) < 0 || n.Cmp(hi) > 0 {
			return nil, false
		}
		var b Bits
		for i := o.N - 1; i >= 0; i-- {
			m := new(big.Int).Rsh(n, uint(i)) // arithmetic shift
			b = append(b, byte(m.Bit(0)))
		}
		return b, true
	}
}

func decInt(signed bool) func(s *src, o *Op) (string, error) {
	return func(s *src, o *Op) (string, error) {
		if o.N < 1 || o.N > 64 {
			return "", errors.New("width")
		}
		if s.pos+o.N > len(s.b) {
			return "", errEnd
		}
		n := new(big.Int)
		for i := 0; i < o.N; i++ {
			n.Lsh(n, 1)
			n.Or(n, big.NewInt(int64(s.b[s.pos])))
			s.pos++
		}
		if signed && n.Bit(o.N-1) == 1 {
			n.Sub(n, new(big.Int).Lsh(big.NewInt(1), uint(o.N)))
		}
		return n.String(), nil
	}
}

// Float16 values.

// halfValue is the exact value of finite half-precision bits.
func halfValue(h uint16) float64 {
	m, e := float64(h&0x3ff), int(h>>10&31)
	v := m / 1024 * math.Ldexp(1, -14)
	if e > 0 {
		v = (1 + m/1024) * math.Ldexp(1, e-15)
	}
	if h>>15 == 1 {
		v = -v
	}
	return v
}

// halfOK tells whether h is a right encoding of f.
func halfOK(f float32, h uint16) bool {
	e, m := h>>10&31, h&0x3ff
	if f != f {
		return e == 31 && m != 0
	}
	if math.Signbit(float64(f)) != (h>>15 == 1) {
		return false
	}
	a := math.Abs(float64(f))
	if e == 31 {
		return m == 0 && a >= 65520
	}
	if math.IsInf(a, 0) {
		return false
	}
	h &= 0x7fff
	d := math.Abs(halfValue(h) - a)
	if h > 0 && math.Abs(halfValue(h-1)-a) < d {
		return false
	}
	up := 65536.0 // beyond the largest number: infinity
	if h < 0x7bff {
		up = halfValue(h + 1)
	}
	return math.Abs(up-a) >= d
}

// halfRead is the float32 of half-precision bits; NaN-ness only for NaN.
func halfRead(h uint16) string {
	e, m := h>>10&31, h&0x3ff
	if e == 31 && m != 0 {
		return "NaN"
	}
	if e == 31 {
		s, _ := fmtF32(float32(math.Inf(1-2*int(h>>15))), nil)
		return s
	}
	f := float32(halfValue(h))
	if h == 0x8000 {
		f = float32(math.Copysign(0, -1))
	}
	s, _ := fmtF32(f, nil)
	return s
}

func showHalf(f float32, err error) (string, error) {
	if f != f {
		return "NaN", err
	}
	return fmtF32(f, err)
}

func getF32(o *Op) float32 { return math.Float32frombits(uint32(o.F)) }
func getF64(o *Op) float64 { return math.Float64frombits(o.F) }

func constSize(n int) func(*Op, int) (int, bool, error) { return nil }

func lenBits(n uint64) Bits { return Unpack(zs.VarBytes("varsize", new(big.Int).SetUint64(n))) }

func decLen(s *src) (uint64, error) {
	var end error
	n := zs.VarDecode("varsize", func() byte {
		v, err := s.uint(8)
		if err != nil {
			end = err
		}
		return byte(v)
	})
	if end != nil {
		return 0, end
	}
	if _, hi := zs.VarRange("varsize"); n.Cmp(hi) > 0 {
		return 0, errors.New("varsize out of range")
	}
	return n.Uint64(), nil
}

func sized(f func(*Op) (int, error)) func(*Op, int) (int, bool, error) {
	return func(o *Op, pos int) (int, bool, error) {
		n, err := f(o)
		return n, true, err
	}
}

func showS(s string, err error) (string, error) { return fmtBlob([]byte(s), uint64(len(s))), err }

func showB(b *ztype.BytesType, err error) (string, error) {
	if err != nil || b == nil {
		return "nil", err
	}
	return fmtBlob(b.Buffer, b.ByteSize), err
}

func showE(b *ztype.ExternType, err error) (string, error) {
	if err != nil || b == nil {
		return "nil", err
	}
	return fmtBlob(b.Buffer, b.BitSize), err
}

// kindOf is the description of an operation.
func kindOf(o *Op) *kind {
	if _, ok := varKinds[o.K]; ok {
		return varKind(o.K, o.T)
	}
	switch o.K {
	case "bool":
		k := &kind{
			write: func(w zserio.Writer, o *Op) error { return ztype.WriteBool(w, o.N != 0) },
			read: func(r zserio.Reader, o *Op) (string, error) {
				b, err := ztype.ReadBool(r)
				return fmt.Sprint(b), err
			},
			enc: func(o *Op, pos int) (Bits, bool) { return Bits{b2i(o.N != 0)}, true },
			dec: func(s *src, o *Op) (string, error) {
				v, err := s.uint(1)
				return fmt.Sprint(v == 1), err
			},
		}
		if o.T {
			k.write, k.read, k.size, k.array = traits(ztype.ArrayTraits.Bool, func(o *Op) bool { return o.N != 0 }, func(b bool, err error) (string, error) { return fmt.Sprint(b), err })
		}
		return k
	case "int", "uint": // 8, 16, 32, 64 bits
		signed := o.K == "int"
		k := &kind{enc: encInt(signed), dec: decInt(signed)}
		if o.T {
			x := fixedWriter(o, signed)
			k.write, k.read, k.size, k.array = x.w, x.r, x.s, x.a
			return k
		}
		k.write = func(w zserio.Writer, o *Op) error {
			switch {
			case signed && o.N == 8:
				return ztype.WriteInt8(w, int8(i64(o)))
			case signed && o.N == 16:
				return ztype.WriteInt16(w, int16(i64(o)))
			case signed && o.N == 32:
				return ztype.WriteInt32(w, int32(i64(o)))
			case signed:
				return ztype.WriteInt64(w, i64(o))
			case o.N == 8:
				return ztype.WriteUint8(w, uint8(u64(o)))
			case o.N == 16:
				return ztype.WriteUint16(w, uint16(u64(o)))
			case o.N == 32:
				return ztype.WriteUint32(w, uint32(u64(o)))
			}
			return ztype.WriteUint64(w, u64(o))
		}
		k.read = func(r zserio.Reader, o *Op) (string, error) {
			switch {
			case signed && o.N == 8:
				return fmtI(ztype.ReadInt8(r))
			case signed && o.N == 16:
				return fmtI(ztype.ReadInt16(r))
			case signed && o.N == 32:
				return fmtI(ztype.ReadInt32(r))
			case signed:
				return fmtI(ztype.ReadInt64(r))
			case o.N == 8:
				return fmtU(ztype.ReadUint8(r))
			case o.N == 16:
				return fmtU(ztype.ReadUint16(r))
			case o.N == 32:
				return fmtU(ztype.ReadUint32(r))
			}
			return fmtU(ztype.ReadUint64(r))
		}
		return k
	case "sbits", "ubits": // any width
		signed := o.K == "sbits"
		k := &kind{enc: encInt(signed), dec: decInt(signed)}
		if o.T {
			x := bitTraits(o, signed)
			k.write, k.read, k.size, k.array = x.w, x.r, x.s, x.a
			return k
		}
		k.write = func(w zserio.Writer, o *Op) error {
			if signed {
				return ztype.WriteSignedBits(w, i64(o), uint8(o.N))
			}
			return ztype.WriteUnsignedBits(w, u64(o), uint8(o.N))
		}
		k.read = func(r zserio.Reader, o *Op) (string, error) {
			if signed {
				return fmtI(ztype.ReadSignedBits(r, uint8(o.N)))
			}
			return fmtU(ztype.ReadUnsignedBits(r, uint8(o.N)))
		}
		return k
	case "f16":
		k := &kind{
			write: func(w zserio.Writer, o *Op) error { return ztype.WriteFloat16(w, getF32(o)) },
			read:  func(r zserio.Reader, o *Op) (string, error) { return showHalf(ztype.ReadFloat16(r)) },
			dec: func(s *src, o *Op) (string, error) {
				v, err := s.uint(16)
				return halfRead(uint16(v)), err
			},
		}
		if o.T {
			k.write, k.read, k.size, k.array = traits(ztype.ArrayTraits.Float16, getF32, showHalf)
		}
		return k
	case "f32":
		k := &kind{
			write: func(w zserio.Writer, o *Op) error { return ztype.WriteFloat32(w, getF32(o)) },
			read:  func(r zserio.Reader, o *Op) (string, error) { return fmtF32(ztype.ReadFloat32(r)) },
			enc: func(o *Op, pos int) (Bits, bool) {
				var b Bits
				b.AddUint(o.F, 32)
				return b, true
			},
			dec: func(s *src, o *Op) (string, error) {
				v, err := s.uint(32)
				return fmt.Sprintf("f%08x", v), err
			},
		}
		if o.T {
			k.write, k.read, k.size, k.array = traits(ztype.ArrayTraits.Float32, getF32, fmtF32)
		}
		return k
	case "f64":
		k := &kind{
			write: func(w zserio.Writer, o *Op) error { return ztype.WriteFloat64(w, getF64(o)) },
			read:  func(r zserio.Reader, o *Op) (string, error) { return fmtF64(ztype.ReadFloat64(r)) },
			enc: func(o *Op, pos int) (Bits, bool) {
				var b Bits
				b.AddUint(o.F, 64)
				return b, true
			},
			dec: func(s *src, o *Op) (string, error) {
				v, err := s.uint(64)
				return fmt.Sprintf("f%016x", v), err
			},
		}
		if o.T {
			k.write, k.read, k.size, k.array = traits(ztype.ArrayTraits.Float64, getF64, fmtF64)
		}
		return k
	case "string":
		k := &kind{
			write: func(w zserio.Writer, o *Op) error { return ztype.WriteString(w, string(o.B)) },
			read:  func(r zserio.Reader, o *Op) (string, error) { return showS(ztype.ReadString(r)) },
			size:  sized(func(o *Op) (int, error) { return ztype.BitSizeOfString(string(o.B)) }),
			enc: func(o *Op, pos int) (Bits, bool) {
				b := lenBits(uint64(len(o.B)))
				b.AddBytes(o.B)
				return b, true
			},
			dec: decBlob(8),
		}
		if o.T {
			k.write, k.read, k.size, k.array = traits(ztype.ArrayTraits.String, func(o *Op) string { return string(o.B) }, showS)
		}
		return k
	case "bytes":
		get := func(o *Op) *ztype.BytesType { return &ztype.BytesType{Buffer: clone(o.B), ByteSize: o.U} }
		k := &kind{
			write: func(w zserio.Writer, o *Op) error { return ztype.WriteBytes(w, get(o)) },
			read:  func(r zserio.Reader, o *Op) (string, error) { return showB(ztype.ReadBytes(r)) },
			size:  sized(func(o *Op) (int, error) { return ztype.BitSizeOfBytes(get(o)) }),
			enc: func(o *Op, pos int) (Bits, bool) {
				if o.U != uint64(len(o.B)) {
					return nil, false
				}
				b := lenBits(o.U)
				b.AddBytes(o.B)
				return b, true
			},
			dec: decBlob(8),
		}
		if o.T {
			k.write, k.read, k.size, k.array = traits(ztype.ArrayTraits.Bytes, get, showB)
		}
		return k
	case "extern":
		get := func(o *Op) *ztype.ExternType { return &ztype.ExternType{Buffer: clone(o.B), BitSize: o.U} }
		k := &kind{
			write: func(w zserio.Writer, o *Op) error { return ztype.WriteExtern(w, get(o)) },
			read:  func(r zserio.Reader, o *Op) (string, error) { return showE(ztype.ReadExtern(r)) },
			size:  sized(func(o *Op) (int, error) { return ztype.BitSizeOfExtern(get(o)) }),
			enc: func(o *Op, pos int) (Bits, bool) {
				if uint64(len(o.B))*8 < o.U {
					return nil, false
				}
				b := lenBits(o.U)
				return append(b, Unpack(o.B)[:o.U]...), true
			},
			dec: decBlob(1),
		}
		if o.T {
			k.write, k.read, k.size, k.array = traits(ztype.ArrayTraits.Extern, get, showE)
		}
		return k
	// stream operations
	case "raw": // the N low bits of V
		return &kind{
			write: func(w zserio.Writer, o *Op) error { return w.WriteBits(u64(o), uint8(o.N)) },
			read:  func(r zserio.Reader, o *Op) (string, error) { return fmtU(r.ReadBits(uint8(o.N))) },
			enc: func(o *Op, pos int) (Bits, bool) {
				var b Bits
				b.AddUint(u64(o), o.N)
				return b, true
			},
			dec: func(s *src, o *Op) (string, error) { return fmtU(s.uint(o.N)) },
		}
	case "rawunsafe": // V has no more than N bits
		k := kindOf(&Op{K: "raw"})
		k.write = func(w zserio.Writer, o *Op) error { return w.WriteBitsUnsafe(u64(o), uint8(o.N)) }
		return k
	case "rawbool":
		k := kindOf(&Op{K: "bool"})
		k.write = func(w zserio.Writer, o *Op) error { return w.WriteBool(o.N != 0) }
		k.read = func(r zserio.Reader, o *Op) (string, error) {
			b, err := r.ReadBool()
			return fmt.Sprint(b), err
		}
		return k
	case "rawbyte":
		return &kind{
			write: func(w zserio.Writer, o *Op) error { return w.WriteByte(byte(u64(o))) },
			read:  func(r zserio.Reader, o *Op) (string, error) { return fmtU(r.ReadByte()) },
			enc: func(o *Op, pos int) (Bits, bool) {
				var b Bits
				b.AddUint(u64(o), 8)
				return b, true
			},
			dec: func(s *src, o *Op) (string, error) { return fmtU(s.uint(8)) },
		}
	case "rawbytes":
		return &kind{
			write: func(w zserio.Writer, o *Op) error {
				n, err := w.Write(clone(o.B))
				if err == nil && n != len(o.B) {
					return fmt.Errorf("Write of %d bytes reports %d bytes and no error", len(o.B), n)
				}
				return err
			},
			read: func(r zserio.Reader, o *Op) (string, error) {
				b := make([]byte, len(o.B))
				_, err := io.ReadFull(r, b)
				return fmtBlob(b, uint64(len(b))), err
			},
			enc: func(o *Op, pos int) (Bits, bool) { return Unpack(o.B), true },
			dec: func(s *src, o *Op) (string, error) {
				b, err := s.bytes(len(o.B))
				return fmtBlob(b, uint64(len(b))), err
			},
		}
	case "align":
		pad := func(pos, n int) int {
			if n == 0 || pos%n == 0 {
				return 0
			}
			return n - pos%n
		}
		return &kind{
			write: func(w zserio.Writer, o *Op) error {
				got, err := w.Align(uint8(o.N))
				if err != nil {
					return err
				}
				if b, ok := w.(*zstream.BitWriter); ok && got != b.BitPosition() {
					return fmt.Errorf("Align returns %d at bit %d", got, b.BitPosition())
				}
				return nil
			},
			read: func(r zserio.Reader, o *Op) (string, error) {
				n, err := r.Align(uint8(o.N))
				return fmt.Sprint(n), err
			},
			enc: func(o *Op, pos int) (Bits, bool) { return make(Bits, pad(pos, o.N)), true },
			dec: func(s *src, o *Op) (string, error) {
				n := pad(s.pos, o.N)
				if s.pos+n > len(s.b) {
					return "", errEnd
				}
				s.pos += n
				return fmt.Sprint(s.pos), nil
			},
		}
	}
	panic("unknown operation " + o.K)
}

func decBlob(unit uint64) func(s *src, o *Op) (string, error) {
	return func(s *src, o *Op) (string, error) {
		n, err := decLen(s)
		if err != nil {
			return "", err
		}
		if n*unit > uint64(len(s.b)-s.pos) {
			return "", errEnd
		}
		b := Bits(s.b[s.pos : s.pos+int(n*unit)])
		s.pos += int(n * unit)
		return fmtBlob(b.Pack(), n), nil
	}
}

func clone(b []byte) []byte { return append([]byte{}, b...) }

func b2i(b bool) byte {
	if b {
		return 1
	}
	return 0
}
