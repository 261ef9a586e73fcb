#!/usr/bin/env python3
# Generates byteio/byteio.go: a stand-in for vimagination.zapto.org/byteio v1.0.0
# (see DESIGN.md, "Stand-in dependencies").  Run from this directory.
out=["""// Package byteio is a stand-in for vimagination.zapto.org/byteio v1.0.0, which
// cannot be fetched offline. It implements the documented behaviour of that
// package: fixed width integers, floats and strings over an io.Reader or
// io.Writer in either byte order, in plain and in "sticky error" form.
//
// Code generated by gen_byteio.py; DO NOT EDIT.
package byteio // import "vimagination.zapto.org/byteio"

import (
	"io"
	"math"
)
"""]
W=[8,16,24,32,40,48,56,64]
def gotype(w):
    for t in (8,16,32,64):
        if w<=t: return t
def rd(end,w):
    n=w//8; t=gotype(w)
    idx=range(n)
    parts=[]
    for i in idx:
        sh = 8*(n-1-i) if end=="Big" else 8*i
        parts.append(f"uint{t}(r.buffer[{i}])"+(f"<<{sh}" if sh else ""))
    return " | ".join(parts)
def wr(end,w):
    n=w//8
    L=[]
    for i in range(n):
        sh = 8*(n-1-i) if end=="Big" else 8*i
        L.append(f"\tw.buffer[{i}] = byte(d"+(f" >> {sh}" if sh else "")+")")
    return "\n".join(L)
for end in ("Big","Little"):
    T=f"{end}EndianReader"
    out.append(f"""
// {T} wraps an io.Reader with typed reads.
type {T} struct {{
	io.Reader
	buffer [9]byte
}}
""")
    for w in W:
        t=gotype(w)
        out.append(f"""
// ReadUint{w} reads an unsigned {w} bit integer.
func (r *{T}) ReadUint{w}() (uint{t}, int, error) {{
	n, err := io.ReadFull(r.Reader, r.buffer[:{w//8}])
	if err != nil {{
		return 0, n, err
	}}
	return {rd(end,w)}, n, nil
}}

// ReadInt{w} reads a signed {w} bit integer.
func (r *{T}) ReadInt{w}() (int{t}, int, error) {{
	u, n, err := r.ReadUint{w}()
	return int{t}(u<<{t-w}) >> {t-w}, n, err
}}
""")
    for f in (32,64):
        out.append(f"""
// ReadFloat{f} reads an IEEE 754 float.
func (r *{T}) ReadFloat{f}() (float{f}, int, error) {{
	u, n, err := r.ReadUint{f}()
	return math.Float{f}frombits(u), n, err
}}
""")
    out.append(f"""
// ReadBool reads a byte as a bool.
func (r *{T}) ReadBool() (bool, int, error) {{
	u, n, err := r.ReadUint8()
	return u != 0, n, err
}}

// ReadBytes reads size bytes.
func (r *{T}) ReadBytes(size int) ([]byte, int, error) {{
	b := make([]byte, size)
	n, err := io.ReadFull(r.Reader, b)
	return b, n, err
}}

// ReadString reads size bytes as a string.
func (r *{T}) ReadString(size int) (string, int, error) {{
	b, n, err := r.ReadBytes(size)
	return string(b), n, err
}}
""")
    T=f"Sticky{end}EndianReader"
    out.append(f"""
// {T} wraps an io.Reader with typed reads, storing the first error and a
// running count of the bytes read.
type {T} struct {{
	io.Reader
	buffer [9]byte
	Err    error
	Count  int64
}}

// Read implements io.Reader.
func (r *{T}) Read(p []byte) (int, error) {{
	if r.Err != nil {{
		return 0, r.Err
	}}
	var n int
	n, r.Err = r.Reader.Read(p)
	r.Count += int64(n)
	return n, r.Err
}}

// GetCount returns the number of bytes read.
func (r *{T}) GetCount() int64 {{ return r.Count }}

// GetError returns the first error.
func (r *{T}) GetError() error {{ return r.Err }}
""")
    for w in W:
        t=gotype(w)
        out.append(f"""
// ReadUint{w} reads an unsigned {w} bit integer.
func (r *{T}) ReadUint{w}() uint{t} {{
	if r.Err != nil {{
		return 0
	}}
	var n int
	n, r.Err = io.ReadFull(r.Reader, r.buffer[:{w//8}])
	r.Count += int64(n)
	if r.Err != nil {{
		return 0
	}}
	return {rd(end,w)}
}}

// ReadInt{w} reads a signed {w} bit integer.
func (r *{T}) ReadInt{w}() int{t} {{
	return int{t}(r.ReadUint{w}()<<{t-w}) >> {t-w}
}}
""")
    for f in (32,64):
        out.append(f"""
// ReadFloat{f} reads an IEEE 754 float.
func (r *{T}) ReadFloat{f}() float{f} {{ return math.Float{f}frombits(r.ReadUint{f}()) }}
""")
    out.append(f"""
// ReadBool reads a byte as a bool.
func (r *{T}) ReadBool() bool {{ return r.ReadUint8() != 0 }}

// ReadBytes reads size bytes.
func (r *{T}) ReadBytes(size int) []byte {{
	if r.Err != nil {{
		return nil
	}}
	b := make([]byte, size)
	var n int
	n, r.Err = io.ReadFull(r.Reader, b)
	r.Count += int64(n)
	return b
}}

// ReadString reads size bytes as a string.
func (r *{T}) ReadString(size int) string {{ return string(r.ReadBytes(size)) }}
""")
    T=f"{end}EndianWriter"
    out.append(f"""
// {T} wraps an io.Writer with typed writes.
type {T} struct {{
	io.Writer
	buffer [9]byte
}}
""")
    for w in W:
        t=gotype(w)
        out.append(f"""
// WriteUint{w} writes an unsigned {w} bit integer.
func (w *{T}) WriteUint{w}(d uint{t}) (int, error) {{
{wr(end,w)}
	return w.Writer.Write(w.buffer[:{w//8}])
}}

// WriteInt{w} writes a signed {w} bit integer.
func (w *{T}) WriteInt{w}(d int{t}) (int, error) {{ return w.WriteUint{w}(uint{t}(d)) }}
""")
    for f in (32,64):
        out.append(f"""
// WriteFloat{f} writes an IEEE 754 float.
func (w *{T}) WriteFloat{f}(d float{f}) (int, error) {{ return w.WriteUint{f}(math.Float{f}bits(d)) }}
""")
    out.append(f"""
// WriteBool writes a bool as a byte.
func (w *{T}) WriteBool(b bool) (int, error) {{
	if b {{
		return w.WriteUint8(1)
	}}
	return w.WriteUint8(0)
}}

// WriteString writes the bytes of a string.
func (w *{T}) WriteString(s string) (int, error) {{ return io.WriteString(w.Writer, s) }}
""")
    T=f"Sticky{end}EndianWriter"
    out.append(f"""
// {T} wraps an io.Writer with typed writes, storing the first error and a
// running count of the bytes written.
type {T} struct {{
	io.Writer
	buffer [9]byte
	Err    error
	Count  int64
}}

// Write implements io.Writer.
func (w *{T}) Write(p []byte) (int, error) {{
	if w.Err != nil {{
		return 0, w.Err
	}}
	var n int
	n, w.Err = w.Writer.Write(p)
	w.Count += int64(n)
	return n, w.Err
}}

// GetCount returns the number of bytes written.
func (w *{T}) GetCount() int64 {{ return w.Count }}

// GetError returns the first error.
func (w *{T}) GetError() error {{ return w.Err }}
""")
    for w in W:
        t=gotype(w)
        out.append(f"""
// WriteUint{w} writes an unsigned {w} bit integer.
func (w *{T}) WriteUint{w}(d uint{t}) {{
	if w.Err != nil {{
		return
	}}
{wr(end,w)}
	var n int
	n, w.Err = w.Writer.Write(w.buffer[:{w//8}])
	w.Count += int64(n)
}}

// WriteInt{w} writes a signed {w} bit integer.
func (w *{T}) WriteInt{w}(d int{t}) {{ w.WriteUint{w}(uint{t}(d)) }}
""")
    for f in (32,64):
        out.append(f"""
// WriteFloat{f} writes an IEEE 754 float.
func (w *{T}) WriteFloat{f}(d float{f}) {{ w.WriteUint{f}(math.Float{f}bits(d)) }}
""")
    out.append(f"""
// WriteBool writes a bool as a byte.
func (w *{T}) WriteBool(b bool) {{
	if b {{
		w.WriteUint8(1)
	}} else {{
		w.WriteUint8(0)
	}}
}}

// WriteBytes writes the bytes.
func (w *{T}) WriteBytes(p []byte) {{ w.Write(p) }}

// WriteString writes the bytes of a string.
func (w *{T}) WriteString(s string) {{ w.Write([]byte(s)) }}
""")
open("byteio/byteio.go","w").write("".join(out))
