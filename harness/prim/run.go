package prim

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime/debug"
	"strings"

	"github.com/woven-planet/go-zserio/zstream"
	"github.com/woven-planet/go-zserio/ztype"
)

// Case is a sequence of operations.
type Case struct {
	Mode string `json:"mode"` // history, decode, align, failing, array
	Ops  []Op   `json:"ops,omitempty"`
	Buf  []byte `json:"buf,omitempty"`  // decode: the input
	Sink int    `json:"sink,omitempty"` // which writer below the bit stream
	Src  int    `json:"src,omitempty"`  // which reader below the bit stream
	Cut  int    `json:"cut,omitempty"`  // history: read back without the last Cut bytes
	Fail int    `json:"fail,omitempty"` // failing: the writer fails at this byte
	Arr  *Arr   `json:"array,omitempty"`
}

// Describe renders a case.
func (c *Case) Describe() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s sink %d source %d", c.Mode, c.Sink, c.Src)
	if c.Buf != nil {
		fmt.Fprintf(&b, " input %x", c.Buf)
	}
	if c.Cut != 0 {
		fmt.Fprintf(&b, " cut %d", c.Cut)
	}
	if c.Fail != 0 {
		fmt.Fprintf(&b, " fail at %d", c.Fail-1)
	}
	if c.Arr != nil {
		fmt.Fprintf(&b, " %+v", *c.Arr)
	}
	for i := range c.Ops {
		fmt.Fprintf(&b, "\n  %s", c.Ops[i].String())
	}
	return b.String()
}

// The writers below a bit stream.

type plainWriter struct{ b bytes.Buffer }

func (p *plainWriter) Write(b []byte) (int, error) { return p.b.Write(b) }
func (p *plainWriter) WriteByte(b byte) error      { return p.b.WriteByte(b) }

var errSink = errors.New("the disk is full")

// failWriter accepts a number of bytes.
type failWriter struct {
	left   int
	failed bool
}

func (f *failWriter) Write(b []byte) (int, error) {
	if len(b) <= f.left {
		f.left -= len(b)
		return len(b), nil
	}
	n := f.left
	f.left = 0
	f.failed = true
	return n, errSink
}

func (f *failWriter) WriteByte(b byte) error {
	_, err := f.Write([]byte{b})
	return err
}

// The readers below a bit stream.

// slowReader returns at most n bytes per call.
type slowReader struct {
	r *bytes.Reader
	n int
}

func (s *slowReader) Read(p []byte) (int, error) {
	if len(p) > s.n {
		p = p[:s.n]
	}
	return s.r.Read(p)
}
func (s *slowReader) ReadByte() (byte, error) { return s.r.ReadByte() }

// eofReader returns io.EOF together with the last bytes.
type eofReader struct{ r *bytes.Reader }

func (s *eofReader) Read(p []byte) (int, error) {
	n, err := s.r.Read(p)
	if err == nil && s.r.Len() == 0 {
		err = io.EOF
	}
	return n, err
}
func (s *eofReader) ReadByte() (byte, error) { return s.r.ReadByte() }

const (
	Sinks   = 3
	Sources = 5
)

func source(k int, b []byte) zstream.Reader {
	switch k {
	case 1:
		return bufio.NewReaderSize(bytes.NewReader(b), 16)
	case 2:
		return &slowReader{bytes.NewReader(b), 1}
	case 3:
		return &slowReader{bytes.NewReader(b), 3}
	case 4:
		return &eofReader{bytes.NewReader(b)}
	}
	return bytes.NewReader(b)
}

// Bad is a violation.
type Bad struct{ Kind, Msg string }

func bad(kind, f string, a ...any) *Bad { return &Bad{kind, fmt.Sprintf(f, a...)} }

// Run executes a case; nil when everything is as it should be.
func (c *Case) Run() (b *Bad) {
	defer func() {
		if x := recover(); x != nil {
			b = bad("panic", "panic: %v\n%s", x, debug.Stack())
		}
	}()
	switch c.Mode {
	case "history":
		return c.history()
	case "decode":
		return c.decode()
	case "failing":
		return c.failing()
	case "align":
		return c.align()
	case "array":
		return kindOf(&Op{K: c.Arr.K, N: c.Arr.N, T: true}).array(c)
	}
	panic("mode " + c.Mode)
}

// history writes the operations, compares the bits and reads them back.
func (c *Case) history() *Bad {
	var buf bytes.Buffer
	var sink zstream.Writer = &buf
	var flush func() error
	switch c.Sink {
	case 1:
		w := bufio.NewWriterSize(&buf, 16)
		sink, flush = w, w.Flush
	case 2:
		p := &plainWriter{}
		sink, flush = p, func() error { _, err := buf.Write(p.b.Bytes()); return err }
	}
	w := zstream.NewWriter(sink)
	var model Bits
	var done []*Op
	var ends []int
	for i := range c.Ops {
		o := &c.Ops[i]
		k := kindOf(o)
		if o.K == "f16" {
			if b := c.half(w, o, k, &model); b != nil {
				return b
			}
			done, ends = append(done, o), append(ends, len(model))
			continue
		}
		want, ok := k.enc(o, len(model))
		err := k.write(w, o)
		if !ok {
			if err == nil {
				return bad("accepted", "%s is written without an error", o)
			}
			if k.strictSize {
				if n, has, err := k.size(o, len(model)); has && err == nil {
					return bad("size", "%s can not be encoded, but its size is %d", o, n)
				}
			}
			if got := w.BitPosition(); got != int64(len(model)) {
				return bad("corrupt", "the refused %s moved the position from %d to %d", o, len(model), got)
			}
			continue
		}
		if err != nil {
			return bad("refused", "%s: %v", o, err)
		}
		if k.size != nil {
			if n, has, err := k.size(o, len(model)); has && (err != nil || n != len(want)) {
				return bad("size", "%s: the reported size is %d (error %v), its encoding has %d bits", o, n, err, len(want))
			}
		}
		model = append(model, want...)
		if got := w.BitPosition(); got != int64(len(model)) {
			return bad("position", "after %s: position %d, want %d", o, got, len(model))
		}
		done, ends = append(done, o), append(ends, len(model))
	}
	if err := w.Close(); err != nil {
		return bad("refused", "Close: %v", err)
	}
	if flush != nil {
		if err := flush(); err != nil {
			return bad("refused", "flush: %v", err)
		}
	}
	if want := model.Pack(); !bytes.Equal(buf.Bytes(), want) {
		return bad("bits", "written %x\nwant    %x", buf.Bytes(), want)
	}
	// read back, possibly less than everything
	data := clone(buf.Bytes())
	cut := min(c.Cut, len(data))
	data = data[:len(data)-cut]
	return readBack(c.Src, data, done, ends, model)
}

func readBack(srcKind int, data []byte, ops []*Op, ends []int, model Bits) *Bad {
	r := zstream.NewReader(source(srcKind, data))
	s := &src{b: Unpack(data)}
	for i, o := range ops {
		k := kindOf(o)
		pos := s.pos
		want, werr := k.dec(s, o)
		got, err := k.read(r, o)
		if werr != nil {
			if err == nil {
				return bad("overread", "%s at bit %d of %d: read %s, but the data ends or is invalid (%v)", o, pos, len(s.b), got, werr)
			}
			return nil
		}
		if err != nil {
			return bad("read", "%s at bit %d of %d: %v", o, pos, len(s.b), err)
		}
		if got != want {
			return bad("value", "%s at bit %d of %d: read %s, want %s", o, pos, len(s.b), got, want)
		}
		if ends != nil && s.pos != ends[i] {
			panic(fmt.Sprintf("model: %s ends at %d, not %d", o, s.pos, ends[i]))
		}
		if ends != nil {
			if v := canonical(o); v != "" && v != got {
				return bad("value", "%s: written %s, read %s", o, v, got)
			}
		}
		if n, err := r.Align(1); err != nil || n != int64(s.pos) {
			return bad("position", "after reading %s: position %d (%v), want %d", o, n, err, s.pos)
		}
	}
	return nil
}

// canonical is the written value as a read shows it.
func canonical(o *Op) string {
	switch o.K {
	case "f32":
		return fmt.Sprintf("f%08x", uint32(o.F))
	case "f64":
		return fmt.Sprintf("f%016x", o.F)
	case "string":
		return fmtBlob(o.B, uint64(len(o.B)))
	case "bytes":
		return fmtBlob(o.B, o.U)
	case "bool", "rawbool":
		return fmt.Sprint(o.N != 0)
	case "f16", "raw", "rawunsafe", "rawbyte", "rawbytes", "align", "extern":
		return ""
	}
	return o.big().String()
}

// half writes a float16, for which several encodings can be right.
func (c *Case) half(w *zstream.BitWriter, o *Op, k *kind, model *Bits) *Bad {
	// the value alone
	var buf bytes.Buffer
	x := zstream.NewWriter(&buf)
	if err := k.write(x, o); err != nil {
		return bad("refused", "%s: %v", o, err)
	}
	if err := x.Close(); err != nil || buf.Len() != 2 {
		return bad("bits", "%s: %x (%v)", o, buf.Bytes(), err)
	}
	h := uint16(buf.Bytes()[0])<<8 | uint16(buf.Bytes()[1])
	if !halfOK(getF32(o), h) {
		return bad("rounding", "%s (%g) is written as %04x (%g)", o, getF32(o), h, halfValue(h))
	}
	if err := k.write(w, o); err != nil {
		return bad("refused", "%s: %v", o, err)
	}
	if k.size != nil {
		if n, has, err := k.size(o, len(*model)); has && (err != nil || n != 16) {
			return bad("size", "%s: the reported size is %d (error %v)", o, n, err)
		}
	}
	model.AddUint(uint64(h), 16)
	return nil
}

// decode reads the operations from arbitrary bytes.
func (c *Case) decode() *Bad {
	var ops []*Op
	for i := range c.Ops {
		ops = append(ops, &c.Ops[i])
	}
	return readBack(c.Src, c.Buf, ops, nil, nil)
}

// failing writes to a writer that fails: some operation must tell.
func (c *Case) failing() *Bad {
	f := &failWriter{left: c.Fail - 1}
	w := zstream.NewWriter(f)
	var model Bits
	told := false
	for i := range c.Ops {
		o := &c.Ops[i]
		if o.K == "f16" {
			model = append(model, make(Bits, 16)...)
		} else {
			b, ok := kindOf(o).enc(o, len(model))
			if !ok {
				continue
			}
			model = append(model, b...)
		}
		if err := kindOf(o).write(w, o); err != nil {
			if !f.failed {
				return bad("refused", "%s: %v", o, err)
			}
			told = true
			break
		}
		if f.failed {
			return bad("silent", "%s reports success, but the writer failed", o)
		}
	}
	if !told {
		err := w.Close()
		if err != nil && !f.failed {
			return bad("refused", "Close: %v", err)
		}
		if err == nil && f.failed {
			return bad("silent", "Close reports success, but the writer failed")
		}
		if need := (len(model) + 7) / 8; err == nil && need > c.Fail-1 {
			return bad("silent", "%d bytes are needed, only %d could be written, and no error is reported", need, c.Fail-1)
		}
	}
	return nil
}

// align compares CountAlignBits with its definition.
func (c *Case) align() *Bad {
	for i := range c.Ops {
		o := &c.Ops[i]
		pos := int(u64(o))
		got := ztype.CountAlignBits(pos, uint8(o.N))
		want := 0
		for (pos+want)%o.N != 0 {
			want++
		}
		if got != want {
			return bad("align", "CountAlignBits(%d, %d) is %d, want %d", pos, o.N, got, want)
		}
	}
	return nil
}
