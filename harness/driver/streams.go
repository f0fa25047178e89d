package driver

import (
	"io"

	"zsverif/zs"
)

// bitWriter is a zserio.Writer over the model's bit list; it fails once Limit
// bits are exceeded (Limit < 0: never).
type bitWriter struct {
	w     zs.BW
	Limit int
	// Fails counts the errors handed out.
	Fails int
}

func (b *bitWriter) room(n int) error {
	if b.Limit >= 0 && b.w.N+n > b.Limit {
		b.Fails++
		return errFault
	}
	return nil
}

func (b *bitWriter) WriteBits(r uint64, n uint8) error {
	if err := b.room(int(n)); err != nil {
		return err
	}
	b.w.Bits(r, int(n))
	return nil
}

func (b *bitWriter) WriteBitsUnsafe(r uint64, n uint8) error { return b.WriteBits(r, n) }

func (b *bitWriter) WriteBool(x bool) error {
	if err := b.room(1); err != nil {
		return err
	}
	b.w.Bit(x)
	return nil
}

func (b *bitWriter) WriteByte(x byte) error { return b.WriteBits(uint64(x), 8) }

func (b *bitWriter) Write(p []byte) (int, error) {
	for i, x := range p {
		if err := b.WriteByte(x); err != nil {
			return i, err
		}
	}
	return len(p), nil
}

func (b *bitWriter) Align(k uint8) (int64, error) {
	n := 0
	if k > 0 && b.w.N%int(k) != 0 {
		n = int(k) - b.w.N%int(k)
	}
	if err := b.room(n); err != nil {
		return 0, err
	}
	for i := 0; i < n; i++ {
		b.w.Bit(false)
	}
	return int64(b.w.N), nil
}

// faultWriter accepts Limit bytes.
type faultWriter struct {
	buf   []byte
	Limit int
	Fails int
}

func (f *faultWriter) WriteByte(b byte) error {
	if len(f.buf) >= f.Limit {
		f.Fails++
		return errFault
	}
	f.buf = append(f.buf, b)
	return nil
}

func (f *faultWriter) Write(p []byte) (int, error) {
	for i, b := range p {
		if err := f.WriteByte(b); err != nil {
			return i, err
		}
	}
	return len(p), nil
}

// slowReader hands out one byte per call and fails with Err at the end.
type slowReader struct {
	buf []byte
	pos int
	Err error
}

func (s *slowReader) ReadByte() (byte, error) {
	if s.pos >= len(s.buf) {
		if s.Err != nil {
			return 0, s.Err
		}
		return 0, io.EOF
	}
	s.pos++
	return s.buf[s.pos-1], nil
}

func (s *slowReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	b, err := s.ReadByte()
	if err != nil {
		return 0, err
	}
	p[0] = b
	return 1, nil
}
