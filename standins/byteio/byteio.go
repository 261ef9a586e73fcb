// Package byteio is a stand-in for vimagination.zapto.org/byteio v1.0.0, which
// cannot be fetched offline. It implements the documented behaviour of that
// package: fixed width integers, floats and strings over an io.Reader or
// io.Writer in either byte order, in plain and in "sticky error" form.
//
// Code generated by gen_byteio.py; DO NOT EDIT.
package byteio // import "vimagination.zapto.org/byteio"

import (
	"io"
	"math"
)

// BigEndianReader wraps an io.Reader with typed reads.
type BigEndianReader struct {
	io.Reader
	buffer [9]byte
}

// ReadUint8 reads an unsigned 8 bit integer.
func (r *BigEndianReader) ReadUint8() (uint8, int, error) {
	n, err := io.ReadFull(r.Reader, r.buffer[:1])
	if err != nil {
		return 0, n, err
	}
	return uint8(r.buffer[0]), n, nil
}

// ReadInt8 reads a signed 8 bit integer.
func (r *BigEndianReader) ReadInt8() (int8, int, error) {
	u, n, err := r.ReadUint8()
	return int8(u<<0) >> 0, n, err
}

// ReadUint16 reads an unsigned 16 bit integer.
func (r *BigEndianReader) ReadUint16() (uint16, int, error) {
	n, err := io.ReadFull(r.Reader, r.buffer[:2])
	if err != nil {
		return 0, n, err
	}
	return uint16(r.buffer[0])<<8 | uint16(r.buffer[1]), n, nil
}

// ReadInt16 reads a signed 16 bit integer.
func (r *BigEndianReader) ReadInt16() (int16, int, error) {
	u, n, err := r.ReadUint16()
	return int16(u<<0) >> 0, n, err
}

// ReadUint24 reads an unsigned 24 bit integer.
func (r *BigEndianReader) ReadUint24() (uint32, int, error) {
	n, err := io.ReadFull(r.Reader, r.buffer[:3])
	if err != nil {
		return 0, n, err
	}
	return uint32(r.buffer[0])<<16 | uint32(r.buffer[1])<<8 | uint32(r.buffer[2]), n, nil
}

// ReadInt24 reads a signed 24 bit integer.
func (r *BigEndianReader) ReadInt24() (int32, int, error) {
	u, n, err := r.ReadUint24()
	return int32(u<<8) >> 8, n, err
}

// ReadUint32 reads an unsigned 32 bit integer.
func (r *BigEndianReader) ReadUint32() (uint32, int, error) {
	n, err := io.ReadFull(r.Reader, r.buffer[:4])
	if err != nil {
		return 0, n, err
	}
	return uint32(r.buffer[0])<<24 | uint32(r.buffer[1])<<16 | uint32(r.buffer[2])<<8 | uint32(r.buffer[3]), n, nil
}

// ReadInt32 reads a signed 32 bit integer.
func (r *BigEndianReader) ReadInt32() (int32, int, error) {
	u, n, err := r.ReadUint32()
	return int32(u<<0) >> 0, n, err
}

// ReadUint40 reads an unsigned 40 bit integer.
func (r *BigEndianReader) ReadUint40() (uint64, int, error) {
	n, err := io.ReadFull(r.Reader, r.buffer[:5])
	if err != nil {
		return 0, n, err
	}
	return uint64(r.buffer[0])<<32 | uint64(r.buffer[1])<<24 | uint64(r.buffer[2])<<16 | uint64(r.buffer[3])<<8 | uint64(r.buffer[4]), n, nil
}

// ReadInt40 reads a signed 40 bit integer.
func (r *BigEndianReader) ReadInt40() (int64, int, error) {
	u, n, err := r.ReadUint40()
	return int64(u<<24) >> 24, n, err
}

// ReadUint48 reads an unsigned 48 bit integer.
func (r *BigEndianReader) ReadUint48() (uint64, int, error) {
	n, err := io.ReadFull(r.Reader, r.buffer[:6])
	if err != nil {
		return 0, n, err
	}
	return uint64(r.buffer[0])<<40 | uint64(r.buffer[1])<<32 | uint64(r.buffer[2])<<24 | uint64(r.buffer[3])<<16 | uint64(r.buffer[4])<<8 | uint64(r.buffer[5]), n, nil
}

// ReadInt48 reads a signed 48 bit integer.
func (r *BigEndianReader) ReadInt48() (int64, int, error) {
	u, n, err := r.ReadUint48()
	return int64(u<<16) >> 16, n, err
}

// ReadUint56 reads an unsigned 56 bit integer.
func (r *BigEndianReader) ReadUint56() (uint64, int, error) {
	n, err := io.ReadFull(r.Reader, r.buffer[:7])
	if err != nil {
		return 0, n, err
	}
	return uint64(r.buffer[0])<<48 | uint64(r.buffer[1])<<40 | uint64(r.buffer[2])<<32 | uint64(r.buffer[3])<<24 | uint64(r.buffer[4])<<16 | uint64(r.buffer[5])<<8 | uint64(r.buffer[6]), n, nil
}

// ReadInt56 reads a signed 56 bit integer.
func (r *BigEndianReader) ReadInt56() (int64, int, error) {
	u, n, err := r.ReadUint56()
	return int64(u<<8) >> 8, n, err
}

// ReadUint64 reads an unsigned 64 bit integer.
func (r *BigEndianReader) ReadUint64() (uint64, int, error) {
	n, err := io.ReadFull(r.Reader, r.buffer[:8])
	if err != nil {
		return 0, n, err
	}
	return uint64(r.buffer[0])<<56 | uint64(r.buffer[1])<<48 | uint64(r.buffer[2])<<40 | uint64(r.buffer[3])<<32 | uint64(r.buffer[4])<<24 | uint64(r.buffer[5])<<16 | uint64(r.buffer[6])<<8 | uint64(r.buffer[7]), n, nil
}

// ReadInt64 reads a signed 64 bit integer.
func (r *BigEndianReader) ReadInt64() (int64, int, error) {
	u, n, err := r.ReadUint64()
	return int64(u<<0) >> 0, n, err
}

// ReadFloat32 reads an IEEE 754 float.
func (r *BigEndianReader) ReadFloat32() (float32, int, error) {
	u, n, err := r.ReadUint32()
	return math.Float32frombits(u), n, err
}

// ReadFloat64 reads an IEEE 754 float.
func (r *BigEndianReader) ReadFloat64() (float64, int, error) {
	u, n, err := r.ReadUint64()
	return math.Float64frombits(u), n, err
}

// ReadBool reads a byte as a bool.
func (r *BigEndianReader) ReadBool() (bool, int, error) {
	u, n, err := r.ReadUint8()
	return u != 0, n, err
}

// ReadBytes reads size bytes.
func (r *BigEndianReader) ReadBytes(size int) ([]byte, int, error) {
	b := make([]byte, size)
	n, err := io.ReadFull(r.Reader, b)
	return b, n, err
}

// ReadString reads size bytes as a string.
func (r *BigEndianReader) ReadString(size int) (string, int, error) {
	b, n, err := r.ReadBytes(size)
	return string(b), n, err
}

// StickyBigEndianReader wraps an io.Reader with typed reads, storing the first error and a
// running count of the bytes read.
type StickyBigEndianReader struct {
	io.Reader
	buffer [9]byte
	Err    error
	Count  int64
}

// Read implements io.Reader.
func (r *StickyBigEndianReader) Read(p []byte) (int, error) {
	if r.Err != nil {
		return 0, r.Err
	}
	var n int
	n, r.Err = r.Reader.Read(p)
	r.Count += int64(n)
	return n, r.Err
}

// GetCount returns the number of bytes read.
func (r *StickyBigEndianReader) GetCount() int64 { return r.Count }

// GetError returns the first error.
func (r *StickyBigEndianReader) GetError() error { return r.Err }

// ReadUint8 reads an unsigned 8 bit integer.
func (r *StickyBigEndianReader) ReadUint8() uint8 {
	if r.Err != nil {
		return 0
	}
	var n int
	n, r.Err = io.ReadFull(r.Reader, r.buffer[:1])
	r.Count += int64(n)
	if r.Err != nil {
		return 0
	}
	return uint8(r.buffer[0])
}

// ReadInt8 reads a signed 8 bit integer.
func (r *StickyBigEndianReader) ReadInt8() int8 {
	return int8(r.ReadUint8()<<0) >> 0
}

// ReadUint16 reads an unsigned 16 bit integer.
func (r *StickyBigEndianReader) ReadUint16() uint16 {
	if r.Err != nil {
		return 0
	}
	var n int
	n, r.Err = io.ReadFull(r.Reader, r.buffer[:2])
	r.Count += int64(n)
	if r.Err != nil {
		return 0
	}
	return uint16(r.buffer[0])<<8 | uint16(r.buffer[1])
}

// ReadInt16 reads a signed 16 bit integer.
func (r *StickyBigEndianReader) ReadInt16() int16 {
	return int16(r.ReadUint16()<<0) >> 0
}

// ReadUint24 reads an unsigned 24 bit integer.
func (r *StickyBigEndianReader) ReadUint24() uint32 {
	if r.Err != nil {
		return 0
	}
	var n int
	n, r.Err = io.ReadFull(r.Reader, r.buffer[:3])
	r.Count += int64(n)
	if r.Err != nil {
		return 0
	}
	return uint32(r.buffer[0])<<16 | uint32(r.buffer[1])<<8 | uint32(r.buffer[2])
}

// ReadInt24 reads a signed 24 bit integer.
func (r *StickyBigEndianReader) ReadInt24() int32 {
	return int32(r.ReadUint24()<<8) >> 8
}

// ReadUint32 reads an unsigned 32 bit integer.
func (r *StickyBigEndianReader) ReadUint32() uint32 {
	if r.Err != nil {
		return 0
	}
	var n int
	n, r.Err = io.ReadFull(r.Reader, r.buffer[:4])
	r.Count += int64(n)
	if r.Err != nil {
		return 0
	}
	return uint32(r.buffer[0])<<24 | uint32(r.buffer[1])<<16 | uint32(r.buffer[2])<<8 | uint32(r.buffer[3])
}

// ReadInt32 reads a signed 32 bit integer.
func (r *StickyBigEndianReader) ReadInt32() int32 {
	return int32(r.ReadUint32()<<0) >> 0
}

// ReadUint40 reads an unsigned 40 bit integer.
func (r *StickyBigEndianReader) ReadUint40() uint64 {
	if r.Err != nil {
		return 0
	}
	var n int
	n, r.Err = io.ReadFull(r.Reader, r.buffer[:5])
	r.Count += int64(n)
	if r.Err != nil {
		return 0
	}
	return uint64(r.buffer[0])<<32 | uint64(r.buffer[1])<<24 | uint64(r.buffer[2])<<16 | uint64(r.buffer[3])<<8 | uint64(r.buffer[4])
}

// ReadInt40 reads a signed 40 bit integer.
func (r *StickyBigEndianReader) ReadInt40() int64 {
	return int64(r.ReadUint40()<<24) >> 24
}

// ReadUint48 reads an unsigned 48 bit integer.
func (r *StickyBigEndianReader) ReadUint48() uint64 {
	if r.Err != nil {
		return 0
	}
	var n int
	n, r.Err = io.ReadFull(r.Reader, r.buffer[:6])
	r.Count += int64(n)
	if r.Err != nil {
		return 0
	}
	return uint64(r.buffer[0])<<40 | uint64(r.buffer[1])<<32 | uint64(r.buffer[2])<<24 | uint64(r.buffer[3])<<16 | uint64(r.buffer[4])<<8 | uint64(r.buffer[5])
}

// ReadInt48 reads a signed 48 bit integer.
func (r *StickyBigEndianReader) ReadInt48() int64 {
	return int64(r.ReadUint48()<<16) >> 16
}

// ReadUint56 reads an unsigned 56 bit integer.
func (r *StickyBigEndianReader) ReadUint56() uint64 {
	if r.Err != nil {
		return 0
	}
	var n int
	n, r.Err = io.ReadFull(r.Reader, r.buffer[:7])
	r.Count += int64(n)
	if r.Err != nil {
		return 0
	}
	return uint64(r.buffer[0])<<48 | uint64(r.buffer[1])<<40 | uint64(r.buffer[2])<<32 | uint64(r.buffer[3])<<24 | uint64(r.buffer[4])<<16 | uint64(r.buffer[5])<<8 | uint64(r.buffer[6])
}

// ReadInt56 reads a signed 56 bit integer.
func (r *StickyBigEndianReader) ReadInt56() int64 {
	return int64(r.ReadUint56()<<8) >> 8
}

// ReadUint64 reads an unsigned 64 bit integer.
func (r *StickyBigEndianReader) ReadUint64() uint64 {
	if r.Err != nil {
		return 0
	}
	var n int
	n, r.Err = io.ReadFull(r.Reader, r.buffer[:8])
	r.Count += int64(n)
	if r.Err != nil {
		return 0
	}
	return uint64(r.buffer[0])<<56 | uint64(r.buffer[1])<<48 | uint64(r.buffer[2])<<40 | uint64(r.buffer[3])<<32 | uint64(r.buffer[4])<<24 | uint64(r.buffer[5])<<16 | uint64(r.buffer[6])<<8 | uint64(r.buffer[7])
}

// ReadInt64 reads a signed 64 bit integer.
func (r *StickyBigEndianReader) ReadInt64() int64 {
	return int64(r.ReadUint64()<<0) >> 0
}

// ReadFloat32 reads an IEEE 754 float.
func (r *StickyBigEndianReader) ReadFloat32() float32 { return math.Float32frombits(r.ReadUint32()) }

// ReadFloat64 reads an IEEE 754 float.
func (r *StickyBigEndianReader) ReadFloat64() float64 { return math.Float64frombits(r.ReadUint64()) }

// ReadBool reads a byte as a bool.
func (r *StickyBigEndianReader) ReadBool() bool { return r.ReadUint8() != 0 }

// ReadBytes reads size bytes.
func (r *StickyBigEndianReader) ReadBytes(size int) []byte {
	if r.Err != nil {
		return nil
	}
	b := make([]byte, size)
	var n int
	n, r.Err = io.ReadFull(r.Reader, b)
	r.Count += int64(n)
	return b
}

// ReadString reads size bytes as a string.
func (r *StickyBigEndianReader) ReadString(size int) string { return string(r.ReadBytes(size)) }

// BigEndianWriter wraps an io.Writer with typed writes.
type BigEndianWriter struct {
	io.Writer
	buffer [9]byte
}

// WriteUint8 writes an unsigned 8 bit integer.
func (w *BigEndianWriter) WriteUint8(d uint8) (int, error) {
	w.buffer[0] = byte(d)
	return w.Writer.Write(w.buffer[:1])
}

// WriteInt8 writes a signed 8 bit integer.
func (w *BigEndianWriter) WriteInt8(d int8) (int, error) { return w.WriteUint8(uint8(d)) }

// WriteUint16 writes an unsigned 16 bit integer.
func (w *BigEndianWriter) WriteUint16(d uint16) (int, error) {
	w.buffer[0] = byte(d >> 8)
	w.buffer[1] = byte(d)
	return w.Writer.Write(w.buffer[:2])
}

// WriteInt16 writes a signed 16 bit integer.
func (w *BigEndianWriter) WriteInt16(d int16) (int, error) { return w.WriteUint16(uint16(d)) }

// WriteUint24 writes an unsigned 24 bit integer.
func (w *BigEndianWriter) WriteUint24(d uint32) (int, error) {
	w.buffer[0] = byte(d >> 16)
	w.buffer[1] = byte(d >> 8)
	w.buffer[2] = byte(d)
	return w.Writer.Write(w.buffer[:3])
}

// WriteInt24 writes a signed 24 bit integer.
func (w *BigEndianWriter) WriteInt24(d int32) (int, error) { return w.WriteUint24(uint32(d)) }

// WriteUint32 writes an unsigned 32 bit integer.
func (w *BigEndianWriter) WriteUint32(d uint32) (int, error) {
	w.buffer[0] = byte(d >> 24)
	w.buffer[1] = byte(d >> 16)
	w.buffer[2] = byte(d >> 8)
	w.buffer[3] = byte(d)
	return w.Writer.Write(w.buffer[:4])
}

// WriteInt32 writes a signed 32 bit integer.
func (w *BigEndianWriter) WriteInt32(d int32) (int, error) { return w.WriteUint32(uint32(d)) }

// WriteUint40 writes an unsigned 40 bit integer.
func (w *BigEndianWriter) WriteUint40(d uint64) (int, error) {
	w.buffer[0] = byte(d >> 32)
	w.buffer[1] = byte(d >> 24)
	w.buffer[2] = byte(d >> 16)
	w.buffer[3] = byte(d >> 8)
	w.buffer[4] = byte(d)
	return w.Writer.Write(w.buffer[:5])
}

// WriteInt40 writes a signed 40 bit integer.
func (w *BigEndianWriter) WriteInt40(d int64) (int, error) { return w.WriteUint40(uint64(d)) }

// WriteUint48 writes an unsigned 48 bit integer.
func (w *BigEndianWriter) WriteUint48(d uint64) (int, error) {
	w.buffer[0] = byte(d >> 40)
	w.buffer[1] = byte(d >> 32)
	w.buffer[2] = byte(d >> 24)
	w.buffer[3] = byte(d >> 16)
	w.buffer[4] = byte(d >> 8)
	w.buffer[5] = byte(d)
	return w.Writer.Write(w.buffer[:6])
}

// WriteInt48 writes a signed 48 bit integer.
func (w *BigEndianWriter) WriteInt48(d int64) (int, error) { return w.WriteUint48(uint64(d)) }

// WriteUint56 writes an unsigned 56 bit integer.
func (w *BigEndianWriter) WriteUint56(d uint64) (int, error) {
	w.buffer[0] = byte(d >> 48)
	w.buffer[1] = byte(d >> 40)
	w.buffer[2] = byte(d >> 32)
	w.buffer[3] = byte(d >> 24)
	w.buffer[4] = byte(d >> 16)
	w.buffer[5] = byte(d >> 8)
	w.buffer[6] = byte(d)
	return w.Writer.Write(w.buffer[:7])
}

// WriteInt56 writes a signed 56 bit integer.
func (w *BigEndianWriter) WriteInt56(d int64) (int, error) { return w.WriteUint56(uint64(d)) }

// WriteUint64 writes an unsigned 64 bit integer.
func (w *BigEndianWriter) WriteUint64(d uint64) (int, error) {
	w.buffer[0] = byte(d >> 56)
	w.buffer[1] = byte(d >> 48)
	w.buffer[2] = byte(d >> 40)
	w.buffer[3] = byte(d >> 32)
	w.buffer[4] = byte(d >> 24)
	w.buffer[5] = byte(d >> 16)
	w.buffer[6] = byte(d >> 8)
	w.buffer[7] = byte(d)
	return w.Writer.Write(w.buffer[:8])
}

// WriteInt64 writes a signed 64 bit integer.
func (w *BigEndianWriter) WriteInt64(d int64) (int, error) { return w.WriteUint64(uint64(d)) }

// WriteFloat32 writes an IEEE 754 float.
func (w *BigEndianWriter) WriteFloat32(d float32) (int, error) {
	return w.WriteUint32(math.Float32bits(d))
}

// WriteFloat64 writes an IEEE 754 float.
func (w *BigEndianWriter) WriteFloat64(d float64) (int, error) {
	return w.WriteUint64(math.Float64bits(d))
}

// WriteBool writes a bool as a byte.
func (w *BigEndianWriter) WriteBool(b bool) (int, error) {
	if b {
		return w.WriteUint8(1)
	}
	return w.WriteUint8(0)
}

// WriteString writes the bytes of a string.
func (w *BigEndianWriter) WriteString(s string) (int, error) { return io.WriteString(w.Writer, s) }

// StickyBigEndianWriter wraps an io.Writer with typed writes, storing the first error and a
// running count of the bytes written.
type StickyBigEndianWriter struct {
	io.Writer
	buffer [9]byte
	Err    error
	Count  int64
}

// Write implements io.Writer.
func (w *StickyBigEndianWriter) Write(p []byte) (int, error) {
	if w.Err != nil {
		return 0, w.Err
	}
	var n int
	n, w.Err = w.Writer.Write(p)
	w.Count += int64(n)
	return n, w.Err
}

// GetCount returns the number of bytes written.
func (w *StickyBigEndianWriter) GetCount() int64 { return w.Count }

// GetError returns the first error.
func (w *StickyBigEndianWriter) GetError() error { return w.Err }

// WriteUint8 writes an unsigned 8 bit integer.
func (w *StickyBigEndianWriter) WriteUint8(d uint8) {
	if w.Err != nil {
		return
	}
	w.buffer[0] = byte(d)
	var n int
	n, w.Err = w.Writer.Write(w.buffer[:1])
	w.Count += int64(n)
}

// WriteInt8 writes a signed 8 bit integer.
func (w *StickyBigEndianWriter) WriteInt8(d int8) { w.WriteUint8(uint8(d)) }

// WriteUint16 writes an unsigned 16 bit integer.
func (w *StickyBigEndianWriter) WriteUint16(d uint16) {
	if w.Err != nil {
		return
	}
	w.buffer[0] = byte(d >> 8)
	w.buffer[1] = byte(d)
	var n int
	n, w.Err = w.Writer.Write(w.buffer[:2])
	w.Count += int64(n)
}

// WriteInt16 writes a signed 16 bit integer.
func (w *StickyBigEndianWriter) WriteInt16(d int16) { w.WriteUint16(uint16(d)) }

// WriteUint24 writes an unsigned 24 bit integer.
func (w *StickyBigEndianWriter) WriteUint24(d uint32) {
	if w.Err != nil {
		return
	}
	w.buffer[0] = byte(d >> 16)
	w.buffer[1] = byte(d >> 8)
	w.buffer[2] = byte(d)
	var n int
	n, w.Err = w.Writer.Write(w.buffer[:3])
	w.Count += int64(n)
}

// WriteInt24 writes a signed 24 bit integer.
func (w *StickyBigEndianWriter) WriteInt24(d int32) { w.WriteUint24(uint32(d)) }

// WriteUint32 writes an unsigned 32 bit integer.
func (w *StickyBigEndianWriter) WriteUint32(d uint32) {
	if w.Err != nil {
		return
	}
	w.buffer[0] = byte(d >> 24)
	w.buffer[1] = byte(d >> 16)
	w.buffer[2] = byte(d >> 8)
	w.buffer[3] = byte(d)
	var n int
	n, w.Err = w.Writer.Write(w.buffer[:4])
	w.Count += int64(n)
}

// WriteInt32 writes a signed 32 bit integer.
func (w *StickyBigEndianWriter) WriteInt32(d int32) { w.WriteUint32(uint32(d)) }

// WriteUint40 writes an unsigned 40 bit integer.
func (w *StickyBigEndianWriter) WriteUint40(d uint64) {
	if w.Err != nil {
		return
	}
	w.buffer[0] = byte(d >> 32)
	w.buffer[1] = byte(d >> 24)
	w.buffer[2] = byte(d >> 16)
	w.buffer[3] = byte(d >> 8)
	w.buffer[4] = byte(d)
	var n int
	n, w.Err = w.Writer.Write(w.buffer[:5])
	w.Count += int64(n)
}

// WriteInt40 writes a signed 40 bit integer.
func (w *StickyBigEndianWriter) WriteInt40(d int64) { w.WriteUint40(uint64(d)) }

// WriteUint48 writes an unsigned 48 bit integer.
func (w *StickyBigEndianWriter) WriteUint48(d uint64) {
	if w.Err != nil {
		return
	}
	w.buffer[0] = byte(d >> 40)
	w.buffer[1] = byte(d >> 32)
	w.buffer[2] = byte(d >> 24)
	w.buffer[3] = byte(d >> 16)
	w.buffer[4] = byte(d >> 8)
	w.buffer[5] = byte(d)
	var n int
	n, w.Err = w.Writer.Write(w.buffer[:6])
	w.Count += int64(n)
}

// WriteInt48 writes a signed 48 bit integer.
func (w *StickyBigEndianWriter) WriteInt48(d int64) { w.WriteUint48(uint64(d)) }

// WriteUint56 writes an unsigned 56 bit integer.
func (w *StickyBigEndianWriter) WriteUint56(d uint64) {
	if w.Err != nil {
		return
	}
	w.buffer[0] = byte(d >> 48)
	w.buffer[1] = byte(d >> 40)
	w.buffer[2] = byte(d >> 32)
	w.buffer[3] = byte(d >> 24)
	w.buffer[4] = byte(d >> 16)
	w.buffer[5] = byte(d >> 8)
	w.buffer[6] = byte(d)
	var n int
	n, w.Err = w.Writer.Write(w.buffer[:7])
	w.Count += int64(n)
}

// WriteInt56 writes a signed 56 bit integer.
func (w *StickyBigEndianWriter) WriteInt56(d int64) { w.WriteUint56(uint64(d)) }

// WriteUint64 writes an unsigned 64 bit integer.
func (w *StickyBigEndianWriter) WriteUint64(d uint64) {
	if w.Err != nil {
		return
	}
	w.buffer[0] = byte(d >> 56)
	w.buffer[1] = byte(d >> 48)
	w.buffer[2] = byte(d >> 40)
	w.buffer[3] = byte(d >> 32)
	w.buffer[4] = byte(d >> 24)
	w.buffer[5] = byte(d >> 16)
	w.buffer[6] = byte(d >> 8)
	w.buffer[7] = byte(d)
	var n int
	n, w.Err = w.Writer.Write(w.buffer[:8])
	w.Count += int64(n)
}

// WriteInt64 writes a signed 64 bit integer.
func (w *StickyBigEndianWriter) WriteInt64(d int64) { w.WriteUint64(uint64(d)) }

// WriteFloat32 writes an IEEE 754 float.
func (w *StickyBigEndianWriter) WriteFloat32(d float32) { w.WriteUint32(math.Float32bits(d)) }

// WriteFloat64 writes an IEEE 754 float.
func (w *StickyBigEndianWriter) WriteFloat64(d float64) { w.WriteUint64(math.Float64bits(d)) }

// WriteBool writes a bool as a byte.
func (w *StickyBigEndianWriter) WriteBool(b bool) {
	if b {
		w.WriteUint8(1)
	} else {
		w.WriteUint8(0)
	}
}

// WriteBytes writes the bytes.
func (w *StickyBigEndianWriter) WriteBytes(p []byte) { w.Write(p) }

// WriteString writes the bytes of a string.
func (w *StickyBigEndianWriter) WriteString(s string) { w.Write([]byte(s)) }

// LittleEndianReader wraps an io.Reader with typed reads.
type LittleEndianReader struct {
	io.Reader
	buffer [9]byte
}

// ReadUint8 reads an unsigned 8 bit integer.
func (r *LittleEndianReader) ReadUint8() (uint8, int, error) {
	n, err := io.ReadFull(r.Reader, r.buffer[:1])
	if err != nil {
		return 0, n, err
	}
	return uint8(r.buffer[0]), n, nil
}

// ReadInt8 reads a signed 8 bit integer.
func (r *LittleEndianReader) ReadInt8() (int8, int, error) {
	u, n, err := r.ReadUint8()
	return int8(u<<0) >> 0, n, err
}

// ReadUint16 reads an unsigned 16 bit integer.
func (r *LittleEndianReader) ReadUint16() (uint16, int, error) {
	n, err := io.ReadFull(r.Reader, r.buffer[:2])
	if err != nil {
		return 0, n, err
	}
	return uint16(r.buffer[0]) | uint16(r.buffer[1])<<8, n, nil
}

// ReadInt16 reads a signed 16 bit integer.
func (r *LittleEndianReader) ReadInt16() (int16, int, error) {
	u, n, err := r.ReadUint16()
	return int16(u<<0) >> 0, n, err
}

// ReadUint24 reads an unsigned 24 bit integer.
func (r *LittleEndianReader) ReadUint24() (uint32, int, error) {
	n, err := io.ReadFull(r.Reader, r.buffer[:3])
	if err != nil {
		return 0, n, err
	}
	return uint32(r.buffer[0]) | uint32(r.buffer[1])<<8 | uint32(r.buffer[2])<<16, n, nil
}

// ReadInt24 reads a signed 24 bit integer.
func (r *LittleEndianReader) ReadInt24() (int32, int, error) {
	u, n, err := r.ReadUint24()
	return int32(u<<8) >> 8, n, err
}

// ReadUint32 reads an unsigned 32 bit integer.
func (r *LittleEndianReader) ReadUint32() (uint32, int, error) {
	n, err := io.ReadFull(r.Reader, r.buffer[:4])
	if err != nil {
		return 0, n, err
	}
	return uint32(r.buffer[0]) | uint32(r.buffer[1])<<8 | uint32(r.buffer[2])<<16 | uint32(r.buffer[3])<<24, n, nil
}

// ReadInt32 reads a signed 32 bit integer.
func (r *LittleEndianReader) ReadInt32() (int32, int, error) {
	u, n, err := r.ReadUint32()
	return int32(u<<0) >> 0, n, err
}

// ReadUint40 reads an unsigned 40 bit integer.
func (r *LittleEndianReader) ReadUint40() (uint64, int, error) {
	n, err := io.ReadFull(r.Reader, r.buffer[:5])
	if err != nil {
		return 0, n, err
	}
	return uint64(r.buffer[0]) | uint64(r.buffer[1])<<8 | uint64(r.buffer[2])<<16 | uint64(r.buffer[3])<<24 | uint64(r.buffer[4])<<32, n, nil
}

// ReadInt40 reads a signed 40 bit integer.
func (r *LittleEndianReader) ReadInt40() (int64, int, error) {
	u, n, err := r.ReadUint40()
	return int64(u<<24) >> 24, n, err
}

// ReadUint48 reads an unsigned 48 bit integer.
func (r *LittleEndianReader) ReadUint48() (uint64, int, error) {
	n, err := io.ReadFull(r.Reader, r.buffer[:6])
	if err != nil {
		return 0, n, err
	}
	return uint64(r.buffer[0]) | uint64(r.buffer[1])<<8 | uint64(r.buffer[2])<<16 | uint64(r.buffer[3])<<24 | uint64(r.buffer[4])<<32 | uint64(r.buffer[5])<<40, n, nil
}

// ReadInt48 reads a signed 48 bit integer.
func (r *LittleEndianReader) ReadInt48() (int64, int, error) {
	u, n, err := r.ReadUint48()
	return int64(u<<16) >> 16, n, err
}

// ReadUint56 reads an unsigned 56 bit integer.
func (r *LittleEndianReader) ReadUint56() (uint64, int, error) {
	n, err := io.ReadFull(r.Reader, r.buffer[:7])
	if err != nil {
		return 0, n, err
	}
	return uint64(r.buffer[0]) | uint64(r.buffer[1])<<8 | uint64(r.buffer[2])<<16 | uint64(r.buffer[3])<<24 | uint64(r.buffer[4])<<32 | uint64(r.buffer[5])<<40 | uint64(r.buffer[6])<<48, n, nil
}

// ReadInt56 reads a signed 56 bit integer.
func (r *LittleEndianReader) ReadInt56() (int64, int, error) {
	u, n, err := r.ReadUint56()
	return int64(u<<8) >> 8, n, err
}

// ReadUint64 reads an unsigned 64 bit integer.
func (r *LittleEndianReader) ReadUint64() (uint64, int, error) {
	n, err := io.ReadFull(r.Reader, r.buffer[:8])
	if err != nil {
		return 0, n, err
	}
	return uint64(r.buffer[0]) | uint64(r.buffer[1])<<8 | uint64(r.buffer[2])<<16 | uint64(r.buffer[3])<<24 | uint64(r.buffer[4])<<32 | uint64(r.buffer[5])<<40 | uint64(r.buffer[6])<<48 | uint64(r.buffer[7])<<56, n, nil
}

// ReadInt64 reads a signed 64 bit integer.
func (r *LittleEndianReader) ReadInt64() (int64, int, error) {
	u, n, err := r.ReadUint64()
	return int64(u<<0) >> 0, n, err
}

// ReadFloat32 reads an IEEE 754 float.
func (r *LittleEndianReader) ReadFloat32() (float32, int, error) {
	u, n, err := r.ReadUint32()
	return math.Float32frombits(u), n, err
}

// ReadFloat64 reads an IEEE 754 float.
func (r *LittleEndianReader) ReadFloat64() (float64, int, error) {
	u, n, err := r.ReadUint64()
	return math.Float64frombits(u), n, err
}

// ReadBool reads a byte as a bool.
func (r *LittleEndianReader) ReadBool() (bool, int, error) {
	u, n, err := r.ReadUint8()
	return u != 0, n, err
}

// ReadBytes reads size bytes.
func (r *LittleEndianReader) ReadBytes(size int) ([]byte, int, error) {
	b := make([]byte, size)
	n, err := io.ReadFull(r.Reader, b)
	return b, n, err
}

// ReadString reads size bytes as a string.
func (r *LittleEndianReader) ReadString(size int) (string, int, error) {
	b, n, err := r.ReadBytes(size)
	return string(b), n, err
}

// StickyLittleEndianReader wraps an io.Reader with typed reads, storing the first error and a
// running count of the bytes read.
type StickyLittleEndianReader struct {
	io.Reader
	buffer [9]byte
	Err    error
	Count  int64
}

// Read implements io.Reader.
func (r *StickyLittleEndianReader) Read(p []byte) (int, error) {
	if r.Err != nil {
		return 0, r.Err
	}
	var n int
	n, r.Err = r.Reader.Read(p)
	r.Count += int64(n)
	return n, r.Err
}

// GetCount returns the number of bytes read.
func (r *StickyLittleEndianReader) GetCount() int64 { return r.Count }

// GetError returns the first error.
func (r *StickyLittleEndianReader) GetError() error { return r.Err }

// ReadUint8 reads an unsigned 8 bit integer.
func (r *StickyLittleEndianReader) ReadUint8() uint8 {
	if r.Err != nil {
		return 0
	}
	var n int
	n, r.Err = io.ReadFull(r.Reader, r.buffer[:1])
	r.Count += int64(n)
	if r.Err != nil {
		return 0
	}
	return uint8(r.buffer[0])
}

// ReadInt8 reads a signed 8 bit integer.
func (r *StickyLittleEndianReader) ReadInt8() int8 {
	return int8(r.ReadUint8()<<0) >> 0
}

// ReadUint16 reads an unsigned 16 bit integer.
func (r *StickyLittleEndianReader) ReadUint16() uint16 {
	if r.Err != nil {
		return 0
	}
	var n int
	n, r.Err = io.ReadFull(r.Reader, r.buffer[:2])
	r.Count += int64(n)
	if r.Err != nil {
		return 0
	}
	return uint16(r.buffer[0]) | uint16(r.buffer[1])<<8
}

// ReadInt16 reads a signed 16 bit integer.
func (r *StickyLittleEndianReader) ReadInt16() int16 {
	return int16(r.ReadUint16()<<0) >> 0
}

// ReadUint24 reads an unsigned 24 bit integer.
func (r *StickyLittleEndianReader) ReadUint24() uint32 {
	if r.Err != nil {
		return 0
	}
	var n int
	n, r.Err = io.ReadFull(r.Reader, r.buffer[:3])
	r.Count += int64(n)
	if r.Err != nil {
		return 0
	}
	return uint32(r.buffer[0]) | uint32(r.buffer[1])<<8 | uint32(r.buffer[2])<<16
}

// ReadInt24 reads a signed 24 bit integer.
func (r *StickyLittleEndianReader) ReadInt24() int32 {
	return int32(r.ReadUint24()<<8) >> 8
}

// ReadUint32 reads an unsigned 32 bit integer.
func (r *StickyLittleEndianReader) ReadUint32() uint32 {
	if r.Err != nil {
		return 0
	}
	var n int
	n, r.Err = io.ReadFull(r.Reader, r.buffer[:4])
	r.Count += int64(n)
	if r.Err != nil {
		return 0
	}
	return uint32(r.buffer[0]) | uint32(r.buffer[1])<<8 | uint32(r.buffer[2])<<16 | uint32(r.buffer[3])<<24
}

// ReadInt32 reads a signed 32 bit integer.
func (r *StickyLittleEndianReader) ReadInt32() int32 {
	return int32(r.ReadUint32()<<0) >> 0
}

// ReadUint40 reads an unsigned 40 bit integer.
func (r *StickyLittleEndianReader) ReadUint40() uint64 {
	if r.Err != nil {
		return 0
	}
	var n int
	n, r.Err = io.ReadFull(r.Reader, r.buffer[:5])
	r.Count += int64(n)
	if r.Err != nil {
		return 0
	}
	return uint64(r.buffer[0]) | uint64(r.buffer[1])<<8 | uint64(r.buffer[2])<<16 | uint64(r.buffer[3])<<24 | uint64(r.buffer[4])<<32
}

// ReadInt40 reads a signed 40 bit integer.
func (r *StickyLittleEndianReader) ReadInt40() int64 {
	return int64(r.ReadUint40()<<24) >> 24
}

// ReadUint48 reads an unsigned 48 bit integer.
func (r *StickyLittleEndianReader) ReadUint48() uint64 {
	if r.Err != nil {
		return 0
	}
	var n int
	n, r.Err = io.ReadFull(r.Reader, r.buffer[:6])
	r.Count += int64(n)
	if r.Err != nil {
		return 0
	}
	return uint64(r.buffer[0]) | uint64(r.buffer[1])<<8 | uint64(r.buffer[2])<<16 | uint64(r.buffer[3])<<24 | uint64(r.buffer[4])<<32 | uint64(r.buffer[5])<<40
}

// ReadInt48 reads a signed 48 bit integer.
func (r *StickyLittleEndianReader) ReadInt48() int64 {
	return int64(r.ReadUint48()<<16) >> 16
}

// ReadUint56 reads an unsigned 56 bit integer.
func (r *StickyLittleEndianReader) ReadUint56() uint64 {
	if r.Err != nil {
		return 0
	}
	var n int
	n, r.Err = io.ReadFull(r.Reader, r.buffer[:7])
	r.Count += int64(n)
	if r.Err != nil {
		return 0
	}
	return uint64(r.buffer[0]) | uint64(r.buffer[1])<<8 | uint64(r.buffer[2])<<16 | uint64(r.buffer[3])<<24 | uint64(r.buffer[4])<<32 | uint64(r.buffer[5])<<40 | uint64(r.buffer[6])<<48
}

// ReadInt56 reads a signed 56 bit integer.
func (r *StickyLittleEndianReader) ReadInt56() int64 {
	return int64(r.ReadUint56()<<8) >> 8
}

// ReadUint64 reads an unsigned 64 bit integer.
func (r *StickyLittleEndianReader) ReadUint64() uint64 {
	if r.Err != nil {
		return 0
	}
	var n int
	n, r.Err = io.ReadFull(r.Reader, r.buffer[:8])
	r.Count += int64(n)
	if r.Err != nil {
		return 0
	}
	return uint64(r.buffer[0]) | uint64(r.buffer[1])<<8 | uint64(r.buffer[2])<<16 | uint64(r.buffer[3])<<24 | uint64(r.buffer[4])<<32 | uint64(r.buffer[5])<<40 | uint64(r.buffer[6])<<48 | uint64(r.buffer[7])<<56
}

// ReadInt64 reads a signed 64 bit integer.
func (r *StickyLittleEndianReader) ReadInt64() int64 {
	return int64(r.ReadUint64()<<0) >> 0
}

// ReadFloat32 reads an IEEE 754 float.
func (r *StickyLittleEndianReader) ReadFloat32() float32 { return math.Float32frombits(r.ReadUint32()) }

// ReadFloat64 reads an IEEE 754 float.
func (r *StickyLittleEndianReader) ReadFloat64() float64 { return math.Float64frombits(r.ReadUint64()) }

// ReadBool reads a byte as a bool.
func (r *StickyLittleEndianReader) ReadBool() bool { return r.ReadUint8() != 0 }

// ReadBytes reads size bytes.
func (r *StickyLittleEndianReader) ReadBytes(size int) []byte {
	if r.Err != nil {
		return nil
	}
	b := make([]byte, size)
	var n int
	n, r.Err = io.ReadFull(r.Reader, b)
	r.Count += int64(n)
	return b
}

// ReadString reads size bytes as a string.
func (r *StickyLittleEndianReader) ReadString(size int) string { return string(r.ReadBytes(size)) }

// LittleEndianWriter wraps an io.Writer with typed writes.
type LittleEndianWriter struct {
	io.Writer
	buffer [9]byte
}

// WriteUint8 writes an unsigned 8 bit integer.
func (w *LittleEndianWriter) WriteUint8(d uint8) (int, error) {
	w.buffer[0] = byte(d)
	return w.Writer.Write(w.buffer[:1])
}

// WriteInt8 writes a signed 8 bit integer.
func (w *LittleEndianWriter) WriteInt8(d int8) (int, error) { return w.WriteUint8(uint8(d)) }

// WriteUint16 writes an unsigned 16 bit integer.
func (w *LittleEndianWriter) WriteUint16(d uint16) (int, error) {
	w.buffer[0] = byte(d)
	w.buffer[1] = byte(d >> 8)
	return w.Writer.Write(w.buffer[:2])
}

// WriteInt16 writes a signed 16 bit integer.
func (w *LittleEndianWriter) WriteInt16(d int16) (int, error) { return w.WriteUint16(uint16(d)) }

// WriteUint24 writes an unsigned 24 bit integer.
func (w *LittleEndianWriter) WriteUint24(d uint32) (int, error) {
	w.buffer[0] = byte(d)
	w.buffer[1] = byte(d >> 8)
	w.buffer[2] = byte(d >> 16)
	return w.Writer.Write(w.buffer[:3])
}

// WriteInt24 writes a signed 24 bit integer.
func (w *LittleEndianWriter) WriteInt24(d int32) (int, error) { return w.WriteUint24(uint32(d)) }

// WriteUint32 writes an unsigned 32 bit integer.
func (w *LittleEndianWriter) WriteUint32(d uint32) (int, error) {
	w.buffer[0] = byte(d)
	w.buffer[1] = byte(d >> 8)
	w.buffer[2] = byte(d >> 16)
	w.buffer[3] = byte(d >> 24)
	return w.Writer.Write(w.buffer[:4])
}

// WriteInt32 writes a signed 32 bit integer.
func (w *LittleEndianWriter) WriteInt32(d int32) (int, error) { return w.WriteUint32(uint32(d)) }

// WriteUint40 writes an unsigned 40 bit integer.
func (w *LittleEndianWriter) WriteUint40(d uint64) (int, error) {
	w.buffer[0] = byte(d)
	w.buffer[1] = byte(d >> 8)
	w.buffer[2] = byte(d >> 16)
	w.buffer[3] = byte(d >> 24)
	w.buffer[4] = byte(d >> 32)
	return w.Writer.Write(w.buffer[:5])
}

// WriteInt40 writes a signed 40 bit integer.
func (w *LittleEndianWriter) WriteInt40(d int64) (int, error) { return w.WriteUint40(uint64(d)) }

// WriteUint48 writes an unsigned 48 bit integer.
func (w *LittleEndianWriter) WriteUint48(d uint64) (int, error) {
	w.buffer[0] = byte(d)
	w.buffer[1] = byte(d >> 8)
	w.buffer[2] = byte(d >> 16)
	w.buffer[3] = byte(d >> 24)
	w.buffer[4] = byte(d >> 32)
	w.buffer[5] = byte(d >> 40)
	return w.Writer.Write(w.buffer[:6])
}

// WriteInt48 writes a signed 48 bit integer.
func (w *LittleEndianWriter) WriteInt48(d int64) (int, error) { return w.WriteUint48(uint64(d)) }

// WriteUint56 writes an unsigned 56 bit integer.
func (w *LittleEndianWriter) WriteUint56(d uint64) (int, error) {
	w.buffer[0] = byte(d)
	w.buffer[1] = byte(d >> 8)
	w.buffer[2] = byte(d >> 16)
	w.buffer[3] = byte(d >> 24)
	w.buffer[4] = byte(d >> 32)
	w.buffer[5] = byte(d >> 40)
	w.buffer[6] = byte(d >> 48)
	return w.Writer.Write(w.buffer[:7])
}

// WriteInt56 writes a signed 56 bit integer.
func (w *LittleEndianWriter) WriteInt56(d int64) (int, error) { return w.WriteUint56(uint64(d)) }

// WriteUint64 writes an unsigned 64 bit integer.
func (w *LittleEndianWriter) WriteUint64(d uint64) (int, error) {
	w.buffer[0] = byte(d)
	w.buffer[1] = byte(d >> 8)
	w.buffer[2] = byte(d >> 16)
	w.buffer[3] = byte(d >> 24)
	w.buffer[4] = byte(d >> 32)
	w.buffer[5] = byte(d >> 40)
	w.buffer[6] = byte(d >> 48)
	w.buffer[7] = byte(d >> 56)
	return w.Writer.Write(w.buffer[:8])
}

// WriteInt64 writes a signed 64 bit integer.
func (w *LittleEndianWriter) WriteInt64(d int64) (int, error) { return w.WriteUint64(uint64(d)) }

// WriteFloat32 writes an IEEE 754 float.
func (w *LittleEndianWriter) WriteFloat32(d float32) (int, error) {
	return w.WriteUint32(math.Float32bits(d))
}

// WriteFloat64 writes an IEEE 754 float.
func (w *LittleEndianWriter) WriteFloat64(d float64) (int, error) {
	return w.WriteUint64(math.Float64bits(d))
}

// WriteBool writes a bool as a byte.
func (w *LittleEndianWriter) WriteBool(b bool) (int, error) {
	if b {
		return w.WriteUint8(1)
	}
	return w.WriteUint8(0)
}

// WriteString writes the bytes of a string.
func (w *LittleEndianWriter) WriteString(s string) (int, error) { return io.WriteString(w.Writer, s) }

// StickyLittleEndianWriter wraps an io.Writer with typed writes, storing the first error and a
// running count of the bytes written.
type StickyLittleEndianWriter struct {
	io.Writer
	buffer [9]byte
	Err    error
	Count  int64
}

// Write implements io.Writer.
func (w *StickyLittleEndianWriter) Write(p []byte) (int, error) {
	if w.Err != nil {
		return 0, w.Err
	}
	var n int
	n, w.Err = w.Writer.Write(p)
	w.Count += int64(n)
	return n, w.Err
}

// GetCount returns the number of bytes written.
func (w *StickyLittleEndianWriter) GetCount() int64 { return w.Count }

// GetError returns the first error.
func (w *StickyLittleEndianWriter) GetError() error { return w.Err }

// WriteUint8 writes an unsigned 8 bit integer.
func (w *StickyLittleEndianWriter) WriteUint8(d uint8) {
	if w.Err != nil {
		return
	}
	w.buffer[0] = byte(d)
	var n int
	n, w.Err = w.Writer.Write(w.buffer[:1])
	w.Count += int64(n)
}

// WriteInt8 writes a signed 8 bit integer.
func (w *StickyLittleEndianWriter) WriteInt8(d int8) { w.WriteUint8(uint8(d)) }

// WriteUint16 writes an unsigned 16 bit integer.
func (w *StickyLittleEndianWriter) WriteUint16(d uint16) {
	if w.Err != nil {
		return
	}
	w.buffer[0] = byte(d)
	w.buffer[1] = byte(d >> 8)
	var n int
	n, w.Err = w.Writer.Write(w.buffer[:2])
	w.Count += int64(n)
}

// WriteInt16 writes a signed 16 bit integer.
func (w *StickyLittleEndianWriter) WriteInt16(d int16) { w.WriteUint16(uint16(d)) }

// WriteUint24 writes an unsigned 24 bit integer.
func (w *StickyLittleEndianWriter) WriteUint24(d uint32) {
	if w.Err != nil {
		return
	}
	w.buffer[0] = byte(d)
	w.buffer[1] = byte(d >> 8)
	w.buffer[2] = byte(d >> 16)
	var n int
	n, w.Err = w.Writer.Write(w.buffer[:3])
	w.Count += int64(n)
}

// WriteInt24 writes a signed 24 bit integer.
func (w *StickyLittleEndianWriter) WriteInt24(d int32) { w.WriteUint24(uint32(d)) }

// WriteUint32 writes an unsigned 32 bit integer.
func (w *StickyLittleEndianWriter) WriteUint32(d uint32) {
	if w.Err != nil {
		return
	}
	w.buffer[0] = byte(d)
	w.buffer[1] = byte(d >> 8)
	w.buffer[2] = byte(d >> 16)
	w.buffer[3] = byte(d >> 24)
	var n int
	n, w.Err = w.Writer.Write(w.buffer[:4])
	w.Count += int64(n)
}

// WriteInt32 writes a signed 32 bit integer.
func (w *StickyLittleEndianWriter) WriteInt32(d int32) { w.WriteUint32(uint32(d)) }

// WriteUint40 writes an unsigned 40 bit integer.
func (w *StickyLittleEndianWriter) WriteUint40(d uint64) {
	if w.Err != nil {
		return
	}
	w.buffer[0] = byte(d)
	w.buffer[1] = byte(d >> 8)
	w.buffer[2] = byte(d >> 16)
	w.buffer[3] = byte(d >> 24)
	w.buffer[4] = byte(d >> 32)
	var n int
	n, w.Err = w.Writer.Write(w.buffer[:5])
	w.Count += int64(n)
}

// WriteInt40 writes a signed 40 bit integer.
func (w *StickyLittleEndianWriter) WriteInt40(d int64) { w.WriteUint40(uint64(d)) }

// WriteUint48 writes an unsigned 48 bit integer.
func (w *StickyLittleEndianWriter) WriteUint48(d uint64) {
	if w.Err != nil {
		return
	}
	w.buffer[0] = byte(d)
	w.buffer[1] = byte(d >> 8)
	w.buffer[2] = byte(d >> 16)
	w.buffer[3] = byte(d >> 24)
	w.buffer[4] = byte(d >> 32)
	w.buffer[5] = byte(d >> 40)
	var n int
	n, w.Err = w.Writer.Write(w.buffer[:6])
	w.Count += int64(n)
}

// WriteInt48 writes a signed 48 bit integer.
func (w *StickyLittleEndianWriter) WriteInt48(d int64) { w.WriteUint48(uint64(d)) }

// WriteUint56 writes an unsigned 56 bit integer.
func (w *StickyLittleEndianWriter) WriteUint56(d uint64) {
	if w.Err != nil {
		return
	}
	w.buffer[0] = byte(d)
	w.buffer[1] = byte(d >> 8)
	w.buffer[2] = byte(d >> 16)
	w.buffer[3] = byte(d >> 24)
	w.buffer[4] = byte(d >> 32)
	w.buffer[5] = byte(d >> 40)
	w.buffer[6] = byte(d >> 48)
	var n int
	n, w.Err = w.Writer.Write(w.buffer[:7])
	w.Count += int64(n)
}

// WriteInt56 writes a signed 56 bit integer.
func (w *StickyLittleEndianWriter) WriteInt56(d int64) { w.WriteUint56(uint64(d)) }

// WriteUint64 writes an unsigned 64 bit integer.
func (w *StickyLittleEndianWriter) WriteUint64(d uint64) {
	if w.Err != nil {
		return
	}
	w.buffer[0] = byte(d)
	w.buffer[1] = byte(d >> 8)
	w.buffer[2] = byte(d >> 16)
	w.buffer[3] = byte(d >> 24)
	w.buffer[4] = byte(d >> 32)
	w.buffer[5] = byte(d >> 40)
	w.buffer[6] = byte(d >> 48)
	w.buffer[7] = byte(d >> 56)
	var n int
	n, w.Err = w.Writer.Write(w.buffer[:8])
	w.Count += int64(n)
}

// WriteInt64 writes a signed 64 bit integer.
func (w *StickyLittleEndianWriter) WriteInt64(d int64) { w.WriteUint64(uint64(d)) }

// WriteFloat32 writes an IEEE 754 float.
func (w *StickyLittleEndianWriter) WriteFloat32(d float32) { w.WriteUint32(math.Float32bits(d)) }

// WriteFloat64 writes an IEEE 754 float.
func (w *StickyLittleEndianWriter) WriteFloat64(d float64) { w.WriteUint64(math.Float64bits(d)) }

// WriteBool writes a bool as a byte.
func (w *StickyLittleEndianWriter) WriteBool(b bool) {
	if b {
		w.WriteUint8(1)
	} else {
		w.WriteUint8(0)
	}
}

// WriteBytes writes the bytes.
func (w *StickyLittleEndianWriter) WriteBytes(p []byte) { w.Write(p) }

// WriteString writes the bytes of a string.
func (w *StickyLittleEndianWriter) WriteString(s string) { w.Write([]byte(s)) }
