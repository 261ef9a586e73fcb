// Package memio is a stand-in for vimagination.zapto.org/memio v1.0.0, which
// cannot be fetched offline: io interfaces over byte slices.
package memio // import "vimagination.zapto.org/memio"

import (
	"bytes"
	"errors"
	"io"
)

// Errors.
var (
	ErrClosed        = errors.New("operation not permitted when closed")
	ErrInvalidWhence = errors.New("invalid whence")
)

// Buffer grants a byte slice very straightforward IO methods: reads consume
// from the front and writes append to the back.
type Buffer []byte

// Read satisfies io.Reader.
func (s *Buffer) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}

	if len(*s) == 0 {
		return 0, io.EOF
	}

	n := copy(p, *s)
	*s = (*s)[n:]

	return n, nil
}

// ReadAt satisfies io.ReaderAt.
func (s *Buffer) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(*s)) {
		return 0, io.EOF
	}

	n := copy(p, (*s)[off:])
	if n < len(p) {
		return n, io.EOF
	}

	return n, nil
}

// WriteTo satisfies io.WriterTo.
func (s *Buffer) WriteTo(w io.Writer) (int64, error) {
	if len(*s) == 0 {
		return 0, io.EOF
	}

	n, err := w.Write(*s)
	*s = (*s)[n:]

	return int64(n), err
}

// Write satisfies io.Writer.
func (s *Buffer) Write(p []byte) (int, error) {
	*s = append(*s, p...)

	return len(p), nil
}

// WriteAt satisfies io.WriterAt.
func (s *Buffer) WriteAt(p []byte, off int64) (int, error) {
	if end := off + int64(len(p)); end > int64(len(*s)) {
		if end > int64(cap(*s)) {
			t := make([]byte, end)
			copy(t, *s)
			*s = t
		} else {
			*s = (*s)[:end]
		}
	}

	return copy((*s)[off:], p), nil
}

// WriteString satisfies io.StringWriter.
func (s *Buffer) WriteString(str string) (int, error) {
	*s = append(*s, str...)

	return len(str), nil
}

// ReadFrom satisfies io.ReaderFrom.
func (s *Buffer) ReadFrom(r io.Reader) (int64, error) {
	var n int64

	for {
		if len(*s) == cap(*s) {
			*s = append(*s, 0)[:len(*s)]
		}

		m, err := r.Read((*s)[len(*s):cap(*s)])
		*s = (*s)[:len(*s)+m]
		n += int64(m)

		if err != nil {
			if errors.Is(err, io.EOF) {
				err = nil
			}

			return n, err
		}
	}
}

// ReadByte satisfies io.ByteReader.
func (s *Buffer) ReadByte() (byte, error) {
	if len(*s) == 0 {
		return 0, io.EOF
	}

	b := (*s)[0]
	*s = (*s)[1:]

	return b, nil
}

// WriteByte satisfies io.ByteWriter.
func (s *Buffer) WriteByte(b byte) error {
	*s = append(*s, b)

	return nil
}

// Peek reads without consuming.
func (s *Buffer) Peek(n int) ([]byte, error) {
	if *s == nil {
		return nil, ErrClosed
	}

	if n > len(*s) {
		return *s, io.EOF
	}

	return (*s)[:n], nil
}

// Close satisfies io.Closer.
func (s *Buffer) Close() error {
	*s = nil

	return nil
}

// ReadMem holds a byte slice that can be read and seeked.
type ReadMem struct {
	*bytes.Reader
}

// Open uses a byte slice for reading.
func Open(data []byte) *ReadMem { return &ReadMem{bytes.NewReader(data)} }

// OpenString uses a string for reading.
func OpenString(s string) *ReadMem { return Open([]byte(s)) }

// Close satisfies io.Closer.
func (r *ReadMem) Close() error {
	r.Reader.Reset(nil)

	return nil
}

// ReadWriteMem is a combination of reading and writing over one byte slice.
type ReadWriteMem struct {
	data *[]byte
	pos  int
}

// WriteMem holds a byte slice that can be written and seeked.
type WriteMem struct {
	ReadWriteMem
}

// Create uses a byte slice for writing, from the start of the slice.
func Create(data *[]byte) *WriteMem { return &WriteMem{ReadWriteMem{data: data}} }

// OpenMem uses a byte slice for reading and writing.
func OpenMem(data *[]byte) *ReadWriteMem { return &ReadWriteMem{data: data} }

// Read satisfies io.Reader.
func (b *ReadWriteMem) Read(p []byte) (int, error) {
	n, err := b.ReadAt(p, int64(b.pos))
	b.pos += n

	if n > 0 {
		err = nil
	}

	return n, err
}

// ReadAt satisfies io.ReaderAt.
func (b *ReadWriteMem) ReadAt(p []byte, off int64) (int, error) {
	if b.data == nil {
		return 0, ErrClosed
	}

	return (*Buffer)(b.data).ReadAt(p, off)
}

// Write satisfies io.Writer.
func (b *ReadWriteMem) Write(p []byte) (int, error) {
	n, err := b.WriteAt(p, int64(b.pos))
	b.pos += n

	return n, err
}

// WriteAt satisfies io.WriterAt.
func (b *ReadWriteMem) WriteAt(p []byte, off int64) (int, error) {
	if b.data == nil {
		return 0, ErrClosed
	}

	return (*Buffer)(b.data).WriteAt(p, off)
}

// Seek satisfies io.Seeker.
func (b *ReadWriteMem) Seek(off int64, whence int) (int64, error) {
	if b.data == nil {
		return 0, ErrClosed
	}

	switch whence {
	case io.SeekStart:
		b.pos = int(off)
	case io.SeekCurrent:
		b.pos += int(off)
	case io.SeekEnd:
		b.pos = len(*b.data) + int(off)
	default:
		return 0, ErrInvalidWhence
	}

	if b.pos < 0 {
		b.pos = 0
	}

	return int64(b.pos), nil
}

// Close satisfies io.Closer.
func (b *ReadWriteMem) Close() error {
	b.data = nil

	return nil
}
