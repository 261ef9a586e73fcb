package main

import (
	"archive/zip"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"image"
	"image/color"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"

	"verif/gen"
	"verif/rt"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/ora"
	"vimagination.zapto.org/limage/xcf"
)

// --- C31 ----------------------------------------------------------------------

// change changes one layer somewhere in a copy of a tree, and tells how deep.
func change(t *rt.T, m limage.Image, f func(l *limage.Layer)) (limage.Image, int) {
	m = append(limage.Image(nil), m...)
	n := t.N(len(m))

	if g, ok := m[n].Image.(limage.Image); ok && len(g) > 0 && !t.P(3) {
		g, d := change(t, g, f)
		m[n].Image = g

		return m, d + 1
	}

	f(&m[n])

	return m, 0
}

const longest = 16<<20 - 1 // the longest name that can be read

var badNames = []string{"\xff", "a\xc3", "na\xefve", "\xed\xa0\x80", "\xc0\x80", "\xf4\x90\x80\x80", "\x80", "\xe5\x9b", "ok\xfe\x00"}
var oddNames = []string{"\x01", "a\x7fb", "\t", "line\r\nbreak", "\ufffe", "\ufffd", "\U0010ffff", "\ufeffname", " ", "\u2029", "e\u0301"}

// storable calls Encode, which must succeed exactly if the format has room for
// the image, and what it wrote must then be the image.
func storable(t *rt.T, m image.Image, fits, either bool) {
	t.Eval(1)

	s := new(sink)

	var err error

	t.Guard("Encode", func() { err = xcf.Encode(s, m) })

	if len(s.conflicts) > 0 {
		t.Fail("%s", s.conflicts[0])
	}

	if err != nil {
		if fits && !either {
			t.Fail("Encode refuses what fits: %v", err)
		}

		t.Count("refused", 1)

		return
	}

	if !fits && !either {
		i, err := tryDecode(t, s.b, false)
		if err != nil {
			t.Fail("Encode writes what does not fit, without an error, to a file of which Decode says: %v", err)
		}

		t.Fail("Encode writes what does not fit, without an error; the file has %s", gen.DescribeImage(i))
	}

	got := decode(t, s.b, t.P(3))
	c := trip{t: t, m: m, k: targetOf(m)}
	c.compare(gen.Canon(m), got, "image", true)
	c.count()
	t.Count("stored", 1)
}

// small makes a small tree.
func small(t *rt.T) limage.Image {
	o := encodable(t)
	o.Misfit = false
	o.MaxSize = 20

	return append(limage.Image(nil), gen.Canon(o.Image(t.Rng, t.N(3)))...)
}

func pictureOf(t *rt.T, m image.Image, w, h int) image.Image {
	r := image.Rect(0, 0, w, h)

	switch k := targetOf(m); k.base {
	case 1:
		i := image.NewGray(r)
		gen.Fill(t.Rng, i, false)

		return i
	case 2:
		if p, ok := m.ColorModel().(lcolor.AlphaPalette); ok {
			return limage.NewPalettedAlpha(r, p)
		}

		return image.NewPaletted(r, m.ColorModel().(color.Palette))
	}

	i := image.NewNRGBA(r)
	gen.Fill(t.Rng, i, false)

	return i
}

func limitNames(t *rt.T) {
	name, fits := "", true

	switch t.N(5) {
	case 0, 1:
		name, fits = badNames[t.N(len(badNames))], false
	case 2, 3:
		name = oddNames[t.N(len(oddNames))]
	default:
		if t.P(25) {
			name = strings.Repeat(t.PickS("x", "ab", "\u00e9"), longest)[:longest&^1]

			switch t.N(4) {
			case 0:
				name += "e"
			case 1:
				name += "e!"
				fits = false
			case 2:
				name += "e" + strings.Repeat("!", t.R(1, 100000))
				fits = false
			}

			t.Count(fmt.Sprintf("names_of_about_16_MiB_that_fit_%v", fits), 1)
		} else {
			name = strings.Repeat(t.PickS("x", "\u00e9", "\U0001f600"), t.Pick(255, 256, 4095, 65535, 65536, 100000))
		}
	}

	if t.B() && len(name) < 100 {
		name = gen.Name(t.Rng) + name

		if t.B() {
			name += gen.Name(t.Rng)
		}
	}

	m, d := change(t, small(t), func(l *limage.Layer) { l.Name = name })

	n := name
	if len(n) > 100 {
		n = n[:100] + "..."
	}

	t.Describe("a layer %d levels deep is named %q (%d bytes)", d, n, len(name))
	storable(t, m, fits, false)
	t.Key(rt.HashS(name + fmt.Sprint(d, len(m))))
}

// limitOffsets puts layers far away from each other.
func limitOffsets(t *rt.T) {
	m := small(t)

	if t.P(3) { // far away inside a group
		r := image.Rect(0, 0, t.R(1, 9), t.R(1, 9))
		far := t.Pick(math.MaxInt32, math.MaxInt32+1, math.MinInt32, math.MinInt32-1, math.MaxUint32, math.MaxUint32+1, 1<<40, -1<<40, 1<<32+3, -1<<32+2, math.MaxInt32-9, math.MinInt32+9)
		at := image.Pt(far, t.R(-3, 3))

		if t.B() {
			at.X, at.Y = at.Y, at.X
		}

		k := pictureOf(t, m, r.Dx(), r.Dy())
		g := limage.Image{{Name: "far", LayerBounds: r.Add(at), Image: k}}

		if t.B() {
			g = append(g, limage.Layer{Name: "near", LayerBounds: r, Image: pictureOf(t, m, r.Dx(), r.Dy())})
		}

		p := image.Pt(t.R(0, 5), t.R(0, 5))
		b := m.Bounds()
		n := t.N(len(m) + 1)
		rest := append(limage.Image(nil), m[n:]...)
		m = append(append(m[:n:n], limage.Layer{Name: "group", LayerBounds: image.Rectangle{b.Min.Add(p), b.Min.Add(p).Add(image.Pt(7, 7))}, Image: g}), rest...)
		o := m[n].LayerBounds.Min.Add(at).Sub(m.Bounds().Min)
		fits := o.X >= math.MinInt32 && o.X <= math.MaxInt32 && o.Y >= math.MinInt32 && o.Y <= math.MaxInt32
		t.Describe("a layer in a group, %v from the corner of the image", o)

		var err error

		s := new(sink)
		t.Guard("Encode", func() { err = xcf.Encode(s, m) })
		t.Eval(1)

		switch {
		case err != nil && fits:
			t.Fail("Encode refuses what fits: %v", err)
		case err == nil && !fits:
			t.Fail("Encode writes an offset that does not fit, without an error")
		case err == nil:
			got := decode(t, s.b, false)

			if len(got) != len(m) {
				t.Fail("%d layers come back, of %d", len(got), len(m))
			}

			if gg, ok := gen.GroupOf(got[n].Image); !ok || len(gg) != len(g) {
				t.Fail("the group comes back as %s", gen.DescribeImage(got[n].Image))
			}

			t.Count("stored", 1)
		default:
			t.Count("refused", 1)
		}

		t.Key(rt.Hash(uint64(o.X), uint64(o.Y), uint64(len(m))))

		return
	}

	// side by side, with the whole being far away as well
	b := m.Bounds()
	w, h := t.R(1, 9), t.R(1, 9)
	d := t.Pick(1<<30, math.MaxInt32-20, math.MaxInt32-1, math.MaxInt32, math.MaxInt32, math.MaxInt32+1, math.MaxInt32+1, math.MaxInt32+20, 1<<32-10, 1<<32-1, 1<<32, 1<<32+7, 1<<33, 1<<50)
	l := limage.Layer{Name: "far", LayerBounds: image.Rect(0, 0, w, h).Add(b.Min), Image: pictureOf(t, m, w, h), Invisible: t.B(), Transparency: t.U8()}
	off := image.Pt(d, 0)
	up := t.B()

	if up {
		off = image.Pt(0, d)
	}

	l.LayerBounds = l.LayerBounds.Add(off)

	if n := t.N(3); n > 0 { // in front of the others, or behind them
		m = append(limage.Image{l}, m...)
	} else {
		m = append(m[:len(m):len(m)], l)
	}

	if t.P(3) { // the others are the ones far away
		for n := range m {
			m[n].LayerBounds = m[n].LayerBounds.Sub(off)
		}
	}

	if t.B() {
		p := image.Pt(t.R(-9, 9), t.R(-1<<40, 1<<40))

		for n := range m {
			m[n].LayerBounds = m[n].LayerBounds.Add(p)
		}
	}

	c := m.Bounds()
	fits := c.Dx() <= math.MaxUint32 && c.Dy() <= math.MaxUint32

	for _, l := range m {
		if p := l.LayerBounds.Min.Sub(c.Min); p.X > math.MaxInt32 || p.Y > math.MaxInt32 || p.X < math.MinInt32 || p.Y < math.MinInt32 {
			fits = false // empty layers may be outside
		}
	}

	t.Describe("%s", gen.DescribeImage(m))
	storable(t, m, fits, false)
	t.Key(rt.Hash(uint64(c.Dx()), uint64(c.Dy()), uint64(len(m))))
}

func limitPalettes(t *rt.T) {
	n := t.Pick(1, 2, 255, 256, 256, 257, 257, 258, 300, 512, 513, 1000, 65536, 65537)
	p := make(color.Palette, n)
	a := make(lcolor.AlphaPalette, n)
	seed := t.U32()
	used := n

	if used > 256 {
		used = 256
	}

	for k := range p {
		v := uint32(k)*2654435761 + seed
		c := lcolor.RGB{R: uint8(v >> 24), G: uint8(v >> 16), B: uint8(v >> 8)}
		p[k], a[k] = c, c
	}

	r := image.Rect(0, 0, t.R(1, 70), t.R(1, 9))

	var i image.Image

	if t.B() {
		m := image.NewPaletted(r, p)

		for k := range m.Pix {
			m.Pix[k] = uint8(t.N(used))
		}

		i = m
	} else {
		m := limage.NewPalettedAlpha(r, a)

		for k := range m.Pix {
			m.Pix[k] = lcolor.IndexedAlpha{I: uint8(t.N(used)), A: t.U8()}
		}

		i = m
	}

	switch t.N(4) {
	case 0:
		i = limage.Image{{Name: "only", LayerBounds: r, Image: i}}
	case 1:
		i = limage.Image{{Name: "one", LayerBounds: r, Image: i}, {Name: "two", LayerBounds: r, Image: i}}
	case 2:
		i = limage.Image{{Name: "group", LayerBounds: r, Image: limage.Image{{Name: "in it", LayerBounds: r, Image: i}}}}
	}

	k := targetOf(i)

	t.Describe("a palette of %d colours, in %s", n, gen.DescribeImage(i))
	storable(t, i, k.base != 2 || n <= 256, false)
	t.Key(rt.Hash(uint64(n), uint64(seed)))
}

// limitSizes makes layers of sizes that are negative or beyond 32 bits.
func limitSizes(t *rt.T) {
	r := image.Rect(0, 0, t.R(0, 9), t.R(0, 9))

	switch t.N(4) {
	case 0:
		r.Min.X = r.Max.X + t.Pick(1, 1, 2, 63, 64, 65, 1<<20, 1<<31, 1<<32)
	case 1:
		r.Min.Y = r.Max.Y + t.Pick(1, 1, 2, 63, 64, 65, 1<<20, 1<<31, 1<<32)
	case 2:
		r = image.Rect(0, 0, t.Pick(math.MaxUint32, math.MaxUint32-1, math.MaxUint32+1, 1<<32+9, 1<<40), 0)
	default:
		r = image.Rect(0, 0, 0, t.Pick(math.MaxUint32, math.MaxUint32-1, math.MaxUint32+1, 1<<32+9, 1<<40))
	}

	var m limage.Image

	base := small(t)
	d := 0
	p := image.Pt(t.R(0, 5), t.R(0, 5))

	m, d = change(t, base, func(l *limage.Layer) {
		l.LayerBounds = r.Add(l.LayerBounds.Min).Add(p)
		l.Image = pictureOf(t, base, 1, 1)
	})

	t.Describe("a layer %d levels deep has the bounds %v, in %s", d, r, gen.DescribeImage(m))
	storable(t, m, false, true) // an empty layer is right as well
	t.Key(rt.Hash(uint64(r.Min.X), uint64(r.Max.X), uint64(r.Min.Y), uint64(r.Max.Y), uint64(d)))
}

// logSink keeps short writes and remembers where the long ones were.
type logSink struct {
	end    int64
	at     []int64
	length []int64
	data   [][]byte // nil for long ones
}

func (s *logSink) WriteAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}

	s.at = append(s.at, off)
	s.length = append(s.length, int64(len(p)))

	if len(p) > 1<<20 {
		s.data = append(s.data, nil)
	} else {
		s.data = append(s.data, append([]byte(nil), p...))
	}

	if e := off + int64(len(p)); e > s.end {
		s.end = e
	}

	return len(p), nil
}

func (s *logSink) sort() {
	o := make([]int, len(s.at))
	for n := range o {
		o[n] = n
	}

	sort.SliceStable(o, func(a, b int) bool { return s.at[o[a]] < s.at[o[b]] })

	n := logSink{end: s.end}

	for _, i := range o {
		n.at = append(n.at, s.at[i])
		n.length = append(n.length, s.length[i])
		n.data = append(n.data, s.data[i])
	}

	*s = n
}

// u32 reads what was written. Placeholders that are written over come first.
func (s *logSink) bytes(off int64, n int) ([]byte, error) {
	b := make([]byte, n)
	have := make([]bool, n)
	k := sort.Search(len(s.at), func(k int) bool { return s.at[k]+s.length[k] > off })

	for k > 0 && s.at[k-1] >= off-1<<20 {
		k--
	}

	for ; k < len(s.at) && s.at[k] < off+int64(n); k++ {
		for j := range b {
			if q := off + int64(j) - s.at[k]; q >= 0 && q < s.length[k] {
				have[j] = true

				if s.data[k] != nil {
					b[j] = s.data[k][q]
				} else {
					b[j] = 'x'
				}
			}
		}
	}

	for _, h := range have {
		if !h {
			return nil, io.ErrUnexpectedEOF
		}
	}

	return b, nil
}

func (s *logSink) u32(off int64) (uint32, error) {
	b, err := s.bytes(off, 4)
	if err != nil {
		return 0, err
	}

	return binary.BigEndian.Uint32(b), nil
}

// limitFiles makes files of several GiB, mostly of the names of the layers.
func limitFiles(t *rt.T) {
	n := []int{140, 250, 255, 258, 300}[t.Idx]
	name := strings.Repeat("x", longest)

	var m limage.Image

	for k := 0; k < n; k++ {
		w, h := 1+k%50, 1+k/50
		i := image.NewNRGBA(image.Rect(0, 0, w, h))
		gen.Fill(t.Rng, i, false)
		m = append(m, limage.Layer{Name: name, LayerBounds: i.Rect, Image: i})
	}

	s := new(logSink)

	var err error

	t.Describe("%d layers with names of %d bytes", n, longest)
	t.Guard("Encode", func() { err = xcf.Encode(s, m) })
	t.Eval(n)
	t.Key(rt.Hash(uint64(n)))
	t.Count("files_of_several_GiB", 1)

	fits := s.end < 1<<32

	if err != nil {
		if n < 256 {
			t.Fail("Encode refuses what fits: %v", err)
		}

		t.Count("files_over_4_GiB_refused", 1)

		return
	}

	if !fits {
		t.Fail("Encode writes a file of %d bytes, the end of which 32-bit pointers cannot reach, without an error", s.end)
	}

	s.sort()

	must := func(off int64) uint32 {
		v, err := s.u32(off)
		if err != nil {
			t.Fail("nothing was written at %d", off)
		}

		return v
	}

	version, err := s.bytes(9, 4)
	if err != nil || version[0] != 'v' || string(version) >= "v004" {
		t.Fail("the version of the file is %q", version)
	}

	pos := int64(14 + 12)

	for {
		id, l := must(pos), must(pos+4)
		if pos += 8 + int64(l); id == 0 {
			break
		}
	}

	for k := 0; k < n; k++ {
		w, h := uint32(1+k%50), uint32(1+k/50)
		p := int64(must(pos + 4*int64(k)))

		if must(p) != w || must(p+4) != h || must(p+12) != longest+1 {
			t.Fail("pointer %d of the layers, %d, leads to %dx%d with a name of %d bytes", k, p, must(p), must(p+4), must(p+12))
		}

		for p += 16 + longest + 1; ; {
			id, l := must(p), must(p+4)
			if p += 8 + int64(l); id == 0 {
				break
			}
		}

		p = int64(must(p))
		if must(p) != w || must(p+4) != h || must(p+8) != 4 {
			t.Fail("the pointer of layer %d leads to a hierarchy of %dx%d with %d bytes a pixel", k, must(p), must(p+4), must(p+8))
		}

		p = int64(must(p + 12))
		if must(p) != w || must(p+4) != h || must(p+12) != 0 {
			t.Fail("the pointer to the level of layer %d leads to a level of %dx%d", k, must(p), must(p+4))
		}

		p = int64(must(p + 8))
		if _, err := s.bytes(p, 4); err != nil {
			t.Fail("the pointer to the tile of layer %d, %d, leads nowhere", k, p)
		}
	}

	if must(pos+4*int64(n)) != 0 {
		t.Fail("the pointers do not end")
	}

	t.Count("pointers_followed_in_files_of_several_GiB", 4*n)
}

// limitDepth puts the layers into groups in groups, some of them with layers
// above or below.
func limitDepth(t *rt.T, m limage.Image, depth int) limage.Image {
	in := limage.Image{{Name: "inmost", LayerBounds: image.Rect(0, 0, 2, 3), Image: pictureOf(t, m, 2, 3)}}

	for k := 0; k < depth; k++ {
		l := limage.Layer{Name: "g" + strconv.Itoa(k), LayerBounds: image.Rectangle{Max: in.Bounds().Max}, Image: in, Invisible: t.P(200)}

		if k == 1 || k == depth-2 {
			l.LayerBounds = l.LayerBounds.Add(image.Pt(t.N(3), t.N(3)))
		}

		in = limage.Image{l}

		if t.P(50) {
			in = append(in, limage.Layer{Name: "beside", LayerBounds: image.Rect(0, 0, 2, 1), Image: pictureOf(t, m, 2, 1)})
		}

		if t.P(50) {
			in[0], in[len(in)-1] = in[len(in)-1], in[0]
		}
	}

	if t.B() {
		return append(m[:len(m):len(m)], in...)
	}

	return append(in, m...)
}

// limitNesting writes groups in groups as XCF.
func limitNesting(t *rt.T) {
	d := t.Pick(2, 10, 30, 60, 200)

	if t.P(12) {
		d = t.Pick(999, 1000, 1001, 1100)
	}

	m := limitDepth(t, small(t), d)

	t.Describe("as XCF: groups %d deep", d)
	t.Key(rt.HashS(gen.DescribeImage(m)))
	t.Count("deep_groups", 1)
	storable(t, m, true, false)
}

// limitOra writes what OpenRaster, or the PNG files in it, may have no room for.
func limitOra(t *rt.T) {
	o := encodable(t)
	oraTree(o)
	o.MaxSize = 20

	m := append(limage.Image(nil), gen.Canon(o.Image(t.Rng, t.N(3)))...)
	bad, may := false, false // it must, or may, be refused
	name := ""

	switch t.N(6) {
	case 5: // groups in groups
		d := t.Pick(1, 2, 5, 10, 20, 60)

		if t.P(8) {
			d = t.Pick(998, 999, 1000, 1001, 1500)
		}

		t.Count("deep_groups", 1)
		m = limitDepth(t, m, d)
		may = d > 999
	case 0: // nothing to draw on
		r := image.Rectangle{image.Pt(t.R(-3, 3), t.R(-3, 3)), image.Pt(t.R(-3, 3), t.R(-3, 3))}
		if !r.Empty() {
			r.Max = r.Min
		}

		m = nil
		bad = true

		for k := t.N(3); k > 0; k-- {
			m = append(m, limage.Layer{Name: "empty", LayerBounds: r, Image: image.NewNRGBA(image.Rectangle{})})
		}
	case 1: // a canvas too large for PNG
		d := t.Pick(1<<32, 1<<32+5, 1<<33, 1<<40, 1<<62)
		l := limage.Layer{Name: "far", LayerBounds: image.Rect(d, 0, d+2, 3), Image: pictureOf(t, m, 2, 3), Invisible: t.B()}

		if t.B() {
			l.LayerBounds = image.Rect(0, -d, 2, 3-d)
		}

		m = append(m[:len(m):len(m)], l)
		bad = true
	case 2: // too many colours for PNG
		n := t.Pick(257, 300, 1000)
		p := make(color.Palette, n)

		for k := range p {
			p[k] = color.NRGBA{uint8(k), uint8(k >> 8), 9, 255}
		}

		i := image.NewPaletted(image.Rect(0, 0, t.R(1, 5), t.R(1, 5)), p)

		for k := range i.Pix {
			i.Pix[k] = t.U8()
		}

		m = limage.Image{{Name: "colourful", LayerBounds: i.Rect, Image: i}}
		may = true
	default:
		name = t.PickS("\x01", "\x00", "a\x1fb", "\xff", "caf\xe9", "\ufffe", "\uffff", "\t", "\r\n", "\x7f\u0085", "\xed\xa0\x80")

		m, _ = change(t, m, func(l *limage.Layer) { l.Name = name })
	}

	t.Describe("as ORA: %s", gen.DescribeImage(m))
	t.Eval(1)
	t.Key(rt.HashS(gen.DescribeImage(m)))

	var (
		buf bytes.Buffer
		err error
	)

	t.Guard("ora.Encode", func() { err = ora.Encode(&buf, m) })

	if err != nil {
		if !bad && !may {
			t.Fail("ora.Encode refuses what fits: %v", err)
		}

		t.Count("ora_refused", 1)

		return
	}

	z, err := zip.NewReader(bytes.NewReader(buf.Bytes()), int64(buf.Len()))
	if err != nil {
		t.Fail("ora.Encode succeeds, but what it wrote is no archive: %v", err)
	}

	var got limage.Image

	t.Guard("ora.Decode", func() { got, err = ora.Decode(z) })

	if err != nil {
		t.Fail("ora.Encode succeeds, but of what it wrote ora.Decode says: %v", err)
	}

	if bad {
		t.Fail("ora.Encode succeeds with an image that fits no PNG file; it comes back as %s", gen.DescribeImage(got))
	}

	t.Count("ora_stored", 1)

	if a, b := oraOutline(gen.Canon(m), true), oraOutline(got, false); a != b {
		t.Fail("comes back as %s, want %s", b, a)
	}
}

// oraOutline is the tree with the names as XML can hold them.
func oraOutline(m limage.Image, clean bool) string {
	var b strings.Builder

	for _, l := range m {
		n := l.Name

		if clean {
			n = strings.Map(func(r rune) rune {
				if r == '\t' || r == '\n' || r == '\r' || r >= 0x20 && r <= 0xd7ff || r >= 0xe000 && r <= 0xfffd || r >= 0x10000 && r <= 0x10ffff {
					return r
				}

				return 0xfffd
			}, n)
		}

		fmt.Fprintf(&b, "%q %v %v %d", n, l.LayerBounds, l.Invisible, l.Transparency)

		in, _, _, _ := peel(l.Image)

		if g, ok := gen.GroupOf(in); ok {
			b.WriteString(" {" + oraOutline(g, clean) + "}")
		}

		b.WriteString("; ")
	}

	return b.String()
}

var c31 = &rt.Check{
	ID: "C31", Level: "exploration",
	Rule: "random small trees with one thing in them, at any depth, that is at or beyond a limit of the format: names that are not UTF-8, odd, or about 16 MiB long; layers about 2^31 and 2^32 apart, inside and outside groups; palettes of 1 to 65537 colours; sizes that are negative or about 2^32; files of 2.2 to 4.9 GiB (the writes recorded, the pointers followed); for ORA empty canvases, ones beyond PNG, too many colours, groups nested up to 1500 deep and names beyond XML. The encoder must refuse what does not fit, and what it writes without an error must decode to the image. Non-trivial: every case; counted by hash of what is odd.",
	N:    rt.Cases(12000, 200000), MinKeys: 4000, MemLimit: 12 << 30,
	Run: func(t *rt.T) {
		if t.Idx < 5 {
			limitFiles(t)

			return
		}

		switch t.N(8) {
		case 0:
			if t.P(10) {
				limitNesting(t)

				break
			}

			fallthrough
		case 1:
			limitNames(t)
		case 2, 3:
			limitOffsets(t)
		case 4:
			limitPalettes(t)
		case 5:
			limitSizes(t)
		default:
			limitOra(t)
		}
	},
}
