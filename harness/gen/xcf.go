package gen

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"image"
	"image/color"
	"io"
	"math"
	"sort"
	"strings"
	"sync/atomic"

	"verif/rt"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
)

// XCFModes are GIMP's numbers of the layer modes and what they are called here.
var XCFModes = [62]limage.Composite{
	limage.CompositeNormal, limage.CompositeDissolve, limage.CompositeBehind, limage.CompositeMultiply, limage.CompositeScreen,
	limage.CompositeOverlay, limage.CompositeDifference, limage.CompositeAddition, limage.CompositeSubtract, limage.CompositeDarkenOnly,
	limage.CompositeLightenOnly, limage.CompositeHue, limage.CompositeSaturation, limage.CompositeColor, limage.CompositeValue,
	limage.CompositeDivide, limage.CompositeDodge, limage.CompositeBurn, limage.CompositeHardLight, limage.CompositeSoftLight,
	limage.CompositeGrainExtract, limage.CompositeGrainMerge, limage.CompositeColorErase, limage.CompositeOverlay, limage.CompositeHue,
	limage.CompositeChroma, limage.CompositeColor, limage.CompositeLightness, limage.CompositeNormal, limage.CompositeBehind,
	limage.CompositeMultiply, limage.CompositeScreen, limage.CompositeDifference, limage.CompositeAddition, limage.CompositeSubtract,
	limage.CompositeDarkenOnly, limage.CompositeLightenOnly, limage.CompositeHue, limage.CompositeSaturation, limage.CompositeColor,
	limage.CompositeValue, limage.CompositeDivide, limage.CompositeDodge, limage.CompositeBurn, limage.CompositeHardLight,
	limage.CompositeSoftLight, limage.CompositeGrainExtract, limage.CompositeGrainMerge, limage.CompositeVividLight, limage.CompositePinLight,
	limage.CompositeLinearLight, limage.CompositeHardMix, limage.CompositeExclusion, limage.CompositeLinearBurn, limage.CompositeDarkenOnly,
	limage.CompositeLightenOnly, limage.CompositeLuminance, limage.CompositeColorErase, limage.CompositeErase, limage.CompositeMerge,
	limage.CompositeSplit, limage.CompositePassThrough,
}

// XCFMode is a mode as XCF can store it.
func XCFMode(m limage.Composite) limage.Composite {
	for _, n := range XCFModes {
		if n == m {
			return m
		}
	}

	return limage.CompositeNormal
}

// XLayer describes a layer of an XCF file. Offsets are those of the canvas.
type XLayer struct {
	Name       string
	X, Y, W, H int
	Alpha      bool
	Hidden     bool
	Opacity    uint8
	Mode       uint32
	Group      bool
	Kids       []*XLayer
	Chan       [][]byte // the channels of a leaf
	Mask       []byte
	Text       *XText
	Extra      []XProp  // properties to add
	Path       []uint32 // instead of the right one
}

// XText is a text as GIMP stores it.
type XText struct {
	Data  limage.TextData // the pieces
	Plain bool            // text, not markup
	Raw   string          // the parasite
	// as ReadXText finds them
	Markup string
	String string
}

// XFile describes an XCF file.
type XFile struct {
	W, H    int
	Base    int // 0 RGB, 1 grey, 2 indexed
	Version int
	RLE     bool
	Palette []lcolor.RGB
	Layers  []*XLayer
	Extra   []XProp // properties to add
	Share   bool    // equal tiles are stored once
	Far     bool    // a hole makes the file bigger than it is, see Sparse
	GapAt   int     // where the hole is, once written
	Gap     uint64
}

// Sparse is a file with a hole in it, where nothing points to.
type Sparse struct {
	B      []byte
	GapAt  int
	Gap    uint64
	Beyond atomic.Int64 // the reads behind the hole
}

// ReadAt implements io.ReaderAt.
func (s *Sparse) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}

	n := 0

	for n < len(p) {
		o := uint64(off) + uint64(n)

		switch {
		case o < uint64(s.GapAt):
			n += copy(p[n:], s.B[o:s.GapAt])
		case o < uint64(s.GapAt)+s.Gap:
			p[n] = 0
			n++
		default:
			o -= s.Gap

			if o >= uint64(len(s.B)) {
				return n, io.EOF
			}

			n += copy(p[n:], s.B[o:])
			s.Beyond.Add(1)
		}
	}

	return n, nil
}

// hole chooses where the hole is, in front of a chunk, and how big.
func (w *xwriter) hole(length int) {
	f, r := w.f, w.r

	if !f.Far || len(w.chunks) < 2 {
		return
	}

	max := uint64(1)<<63 - 1
	sizes := []uint64{1 << 16, 1 << 24, 1<<31 - uint64(length)/2, 1 << 31, 1<<32 - uint64(length)/2, 1 << 32, 1<<32 + 1, 1 << 33, 1 << 40, 1 << 48, 1 << 53, 1 << 62, max - uint64(length)}

	if w.w == 4 {
		max = 1<<32 - 1
		sizes = []uint64{1 << 16, 1 << 24, 1<<31 - uint64(length)/2, 1 << 31, 1<<31 + 1, 3 << 30, max - uint64(length)}
	}

	f.GapAt = w.chunks[1+r.N(len(w.chunks)-1)].at
	if f.Gap = sizes[r.N(len(sizes))]; r.B() {
		f.Gap += uint64(r.N(1 << 16))
	}

	if f.Gap > max-uint64(length) {
		f.Gap = max - uint64(length)
	}
}

// where is what points to a chunk.
func (f *XFile) where(at int) uint64 {
	if f.Gap > 0 && at >= f.GapAt {
		return uint64(at) + f.Gap
	}

	return uint64(at)
}

// Flat lists the layers as they are written.
func (f *XFile) Flat() []*XLayer {
	var (
		ls   []*XLayer
		walk func([]*XLayer)
	)

	walk = func(l []*XLayer) {
		for _, x := range l {
			ls = append(ls, x)
			walk(x.Kids)
		}
	}

	walk(f.Layers)

	return ls
}

// Channels is the number of bytes per pixel.
func (f *XFile) Channels(alpha bool) int {
	n := 1
	if f.Base == 0 {
		n = 3
	}

	if alpha {
		n++
	}

	return n
}

// At is the colour of a pixel of a leaf.
func (f *XFile) At(l *XLayer, x, y int) color.NRGBA {
	i := y*l.W + x
	c := color.NRGBA{A: 255}

	switch f.Base {
	case 0:
		c.R, c.G, c.B = l.Chan[0][i], l.Chan[1][i], l.Chan[2][i]
	case 1:
		c.R = l.Chan[0][i]
		c.G, c.B = c.R, c.R
	default:
		p := f.Palette[l.Chan[0][i]]
		c.R, c.G, c.B = p.R, p.G, p.B
	}

	if l.Alpha {
		c.A = l.Chan[len(l.Chan)-1][i]
	}

	return c
}

// Describe writes the description out.
func (f *XFile) Describe() string {
	var b strings.Builder

	fmt.Fprintf(&b, "v%d base %d %dx%d rle %v palette of %d", f.Version, f.Base, f.W, f.H, f.RLE, len(f.Palette))

	if f.Gap > 0 {
		fmt.Fprintf(&b, " hole of %d at %d", f.Gap, f.GapAt)
	}

	var walk func([]*XLayer)

	walk = func(l []*XLayer) {
		b.WriteString(" {")

		for _, x := range l {
			fmt.Fprintf(&b, " %q %dx%d%+d%+d alpha %v hidden %v opacity %d mode %d mask %v", x.Name, x.W, x.H, x.X, x.Y, x.Alpha, x.Hidden, x.Opacity, x.Mode, x.Mask != nil)

			if x.Text != nil {
				fmt.Fprintf(&b, " text %q", x.Text.Raw)
			}

			if x.Group {
				walk(x.Kids)
			}
		}

		b.WriteString(" }")
	}

	walk(f.Layers)

	return b.String()
}

// XForeign generates descriptions.
type XForeign struct {
	R         *rt.Rng
	Version   int // -1: any
	Base      int // -1: any
	MaxSize   int
	MaxLayers int
	Depth     int
	Inside    bool // within the canvas
	Texts     bool
	NoRLE     bool
	OnlyRLE   bool
	Small     bool
	Modes     []int
	Dissolve  bool
	Big       bool // layers of thousands of pixels a side
	Repeat    bool // tiles that are equal, and stored once
}

func (o *XForeign) size() int {
	r := o.R

	if o.Small {
		return r.R(1, 6)
	}

	if o.Repeat && r.B() {
		return r.Pick(128, 129, 192, r.R(100, 200))
	}

	switch r.N(8) {
	case 0:
		return r.Pick(1, 2, 63, 64, 65, 127, 128, 129, 130)
	case 1:
		return r.R(1, o.MaxSize)
	}

	return r.R(1, 20)
}

func channel(r *rt.Rng, n, max int) []byte {
	b := make([]byte, n)
	style := r.N(5)
	v, left := uint8(0), 0

	for i := range b {
		switch style {
		case 0:
			if i == 0 {
				v = r.Edge8()
			}
		case 1:
			v = r.Edge8()
		default:
			if left == 0 {
				v = r.Edge8()
				left = r.Pick(1, 1, 2, 3, 4, 5, 9, 30, 126, 127, 128, 129, 200, 4096)
			}

			left--
		}

		b[i] = v
		if max < 256 {
			b[i] = uint8(int(v) % max)
		}
	}

	return b
}

func (o *XForeign) layer(f *XFile, depth int) *XLayer {
	r := o.R
	l := &XLayer{Name: Name(r), W: o.size(), H: o.size(), Alpha: true, Opacity: 255, Hidden: r.P(5)}

	if l.W*l.H > 10000 && !r.P(3) {
		l.H = r.R(1, 20)
	}

	if r.P(2) {
		l.Opacity = r.Edge8()
	}

	if len(o.Modes) > 0 {
		l.Mode = uint32(o.Modes[r.N(len(o.Modes))])
	} else if !r.P(3) {
		l.Mode = uint32(r.N(62))
	}

	if l.Mode == 1 && !o.Dissolve {
		l.Mode = 0
	}

	if !r.P(3) {
		l.X, l.Y = r.R(-10, f.W), r.R(-10, f.H)
		if r.P(8) {
			l.X, l.Y = r.R(-200, 200), r.R(-200, 200)
		}
	}

	if o.Big {
		l.W, l.H = r.Pick(1000, 4095, 4096, 4097, 5000, 20000, 70000), r.R(1, 70)
		if l.W > 5000 {
			l.H = r.R(1, 3)
		}

		if r.B() {
			l.W, l.H = l.H, l.W
		}
	}

	if o.Inside {
		if l.W > f.W {
			l.W = f.W
		}

		if l.H > f.H {
			l.H = f.H
		}

		l.X, l.Y = r.R(0, f.W-l.W), r.R(0, f.H-l.H)
	}

	if depth > 0 && r.P(3) {
		l.Group = true

		var b image.Rectangle

		for k := r.R(0, 3); k > 0; k-- {
			c := o.layer(f, depth-1)
			l.Kids = append(l.Kids, c)
			b = b.Union(image.Rect(c.X, c.Y, c.X+c.W, c.Y+c.H))
		}

		if b.Empty() {
			b = image.Rect(0, 0, 1, 1)
		}

		l.X, l.Y, l.W, l.H = b.Min.X, b.Min.Y, b.Dx(), b.Dy()
	} else {
		o.fill(f, l)

		if o.Texts && r.P(4) {
			l.Text = RandXText(r)
		}
	}

	if r.P(4) && l.W*l.H < 100000 {
		l.Mask = channel(r, l.W*l.H, 256)
	}

	return l
}

func (o *XForeign) fill(f *XFile, l *XLayer) {
	l.Chan = nil

	for k := 0; k < f.Channels(l.Alpha); k++ {
		max := 256
		if f.Base == 2 && k == 0 {
			max = len(f.Palette)
		}

		l.Chan = append(l.Chan, channel(o.R, l.W*l.H, max))
	}

	if (l.W > 64 || l.H > 64) && (o.Repeat || o.R.P(4)) { // tiles that are equal
		for _, c := range l.Chan {
			for y := 0; y < l.H; y++ {
				for x := 0; x < l.W; x++ {
					c[y*l.W+x] = c[(y%64)*l.W+x%64]
				}
			}
		}
	}
}

// Make makes a description.
func (o *XForeign) Make() *XFile {
	r := o.R
	f := &XFile{W: r.R(1, 40), H: r.R(1, 40), Base: o.Base, Version: o.Version, RLE: !r.P(4)}

	if r.P(6) && !o.Small {
		f.W, f.H = r.R(60, 200), r.R(1, 140)
	}

	if o.MaxSize == 0 {
		o.MaxSize = 150
	}

	if o.MaxLayers == 0 {
		o.MaxLayers = 4
	}

	if f.Base < 0 {
		f.Base = r.N(3)
	}

	if f.Version < 0 {
		f.Version = r.Pick(0, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13)
	}

	f.Share = o.Repeat

	if o.Big {
		f.W, f.H = r.Pick(f.W, r.R(1000, 6000), 70000), r.Pick(f.H, 1, r.R(1000, 6000))
		o.MaxLayers = 2
	}

	if o.Repeat {
		f.W, f.H = r.R(60, 200), r.R(1, 140)
		f.RLE = r.B()
	}

	if o.NoRLE {
		f.RLE = false
	}

	if o.OnlyRLE {
		f.RLE = true
	}

	if f.Base == 2 {
		for _, c := range Palette(r, 0) {
			f.Palette = append(f.Palette, lcolor.RGBModel.Convert(c).(lcolor.RGB))
		}
	}

	for k := r.R(1, o.MaxLayers); k > 0; k-- {
		f.Layers = append(f.Layers, o.layer(f, o.Depth))
	}

	ls := f.Flat()

	if last := ls[len(ls)-1]; !last.Group && r.P(2) { // a background
		last.Alpha = false
		o.fill(f, last)
	}

	return f
}

// --- text ----------------------------------------------------------------------

// XQuote quotes a string as GIMP does.
func XQuote(s string) string {
	var b strings.Builder

	b.WriteByte('"')

	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c == '\n':
			b.WriteString("\\n")
		case c == '\t':
			b.WriteString("\\t")
		case c == '\r':
			b.WriteString("\\r")
		case c < ' ':
			fmt.Fprintf(&b, "\\%03o", c)
		default:
			b.WriteByte(c)
		}
	}

	b.WriteByte('"')

	return b.String()
}

// RandXText makes a text layer's parasite as GIMP writes it.
func RandXText(r *rt.Rng) *XText {
	x := &XText{Plain: r.B()}
	d := limage.TextDatum{
		ForeColor: lcolor.RGB{R: r.Edge8(), G: r.Edge8(), B: r.Edge8()},
		BackColor: color.Alpha{},
		Size:      uint32(r.R(1, 300)),
		Font:      r.PickS("Sans", "DejaVu Sans Mono Bold", "A \"quoted\" \\ font", "Schriftart Größe"),
	}

	var parts []string

	if x.Plain {
		d.Data = TextString(r)
		if d.Data == "" {
			d.Data = "x"
		}

		x.Data = limage.TextData{d}
		parts = append(parts, "(text "+XQuote(d.Data)+")")
	} else {
		m := "<markup>"

		for k := r.R(1, 4); k > 0; k-- {
			e := d
			e.Data = TextString(r)

			if e.Data == "" {
				e.Data = "y"
			}

			end := ""
			tag := func(open, name string) {
				m += open
				end = "</" + name + ">" + end
			}

			if r.P(3) {
				e.Bold = true
				tag("<b>", "b")
			}

			if r.P(3) {
				e.Italic = true
				tag("<i>", "i")
			}

			if r.P(3) {
				e.Underline = true
				tag("<u>", "u")
			}

			if r.P(3) {
				e.Strikethrough = true
				tag("<s>", "s")
			}

			if r.P(2) {
				c := lcolor.RGB{R: r.Edge8(), G: r.Edge8(), B: r.Edge8()}
				e.ForeColor = c
				tag(fmt.Sprintf("<span foreground=\"#%02x%02x%02x\">", c.R, c.G, c.B), "span")
			}

			if r.P(3) {
				e.Size = uint32(r.R(1, 200))
				tag(fmt.Sprintf("<span size=\"%d\">", e.Size*1024), "span")
			}

			if r.P(3) {
				e.Font = r.PickS("Serif", "Mono <Bold> & \"co\"")
				tag("<span font=\""+XMLText(r, e.Font, '"')+"\">", "span")
			}

			if r.P(4) {
				e.LetterSpacing = uint32(r.R(0, 90))
				tag(fmt.Sprintf("<span letter_spacing=\"%d\">", e.LetterSpacing*1024), "span")
			} else if r.P(12) { // negative: not kept
				tag(fmt.Sprintf("<span letter_spacing=\"%d\">", -r.R(1, 3)*1024), "span")
			}

			if r.P(4) {
				e.Rise = uint32(r.R(0, 90))
				tag(fmt.Sprintf("<span rise='%d'>", e.Rise*1024), "span")
			} else if r.P(12) {
				tag(fmt.Sprintf("<span rise='%d'>", -r.R(1, 9)*1024), "span")
			}

			if r.P(4) {
				c := lcolor.RGB{R: r.Edge8(), G: r.Edge8(), B: r.Edge8()}
				e.BackColor = c
				tag(fmt.Sprintf("<span background=\"#%02X%02X%02X\">", c.R, c.G, c.B), "span")
			}

			m += XMLText(r, e.Data, 0) + end
			x.Data = append(x.Data, e)
		}

		m += "</markup>"
		parts = append(parts, "(markup "+XQuote(m)+")")
	}

	c := d.ForeColor.(lcolor.RGB)
	parts = append(parts,
		"(font "+XQuote(d.Font)+")",
		fmt.Sprintf("(font-size %d.000000)", d.Size),
		"(font-size-unit pixels)",
		"(antialias "+r.PickS("yes", "no")+")",
		"(language \"en-us\")",
		"(base-direction ltr)",
		fmt.Sprintf("(color (color-rgb %f %f %f))", float64(c.R)/255, float64(c.G)/255, float64(c.B)/255),
		"(justify "+r.PickS("left", "center", "fill")+")",
		"(box-mode "+r.PickS("dynamic", "fixed")+")",
		"(box-width 123.000000)",
		"(box-height 45.000000)",
		"(box-unit pixels)",
		"(hinting yes)")

	sep := r.PickS("\n", "\n", " ", "\r\n")
	x.Raw = strings.Join(parts, sep) + "\n"

	return x
}

// StyledRunes lists the characters of a text with their styles.
func StyledRunes(t limage.TextData) []limage.TextDatum {
	var s []limage.TextDatum

	norm := func(c color.Color) color.Color {
		if c == nil {
			return color.RGBA64{}
		}

		return color.RGBA64Model.Convert(c)
	}

	for _, d := range t {
		data := d.Data
		d.ForeColor, d.BackColor = norm(d.ForeColor), norm(d.BackColor)

		if a := d.ForeColor.(color.RGBA64); a.A == 0 { // none is black
			d.ForeColor = color.RGBA64{A: 0xffff}
		}

		for _, c := range data {
			d.Data = string(c)
			s = append(s, d)
		}
	}

	return s
}

// --- writing ---------------------------------------------------------------------

type chunk struct {
	data  []byte
	refs  []chunkRef
	marks []XField
	at    int
}

type chunkRef struct {
	off int
	to  *chunk
}

func (c *chunk) u32(v uint32) { c.mark("", 4); c.data = binary.BigEndian.AppendUint32(c.data, v) }
func (c *chunk) mark(kind string, n int) {
	c.marks = append(c.marks, XField{len(c.data), n, kind})
}

// u32k is a field of a kind.
func (c *chunk) u32k(kind string, v uint32) {
	c.mark(kind, 4)
	c.data = binary.BigEndian.AppendUint32(c.data, v)
}
func (c *chunk) u8(v uint8)      { c.data = append(c.data, v) }
func (c *chunk) f32(v float32)   { c.u32(math.Float32bits(v)) }
func (c *chunk) bytes(b ...byte) { c.data = append(c.data, b...) }
func (c *chunk) ptr(w int, t *chunk) {
	if t != nil {
		c.refs = append(c.refs, chunkRef{len(c.data), t})
	}

	c.mark("pointer", w)
	c.data = append(c.data, make([]byte, w)...)
}

func (c *chunk) str(r *rt.Rng, s string) {
	if s == "" && r.B() {
		c.u32(0)

		return
	}

	c.u32(uint32(len(s) + 1))
	c.data = append(append(c.data, s...), 0)
}

// XField is a field of a written file, for what wants to garble it.
type XField struct {
	Off, Size int
	Kind      string
}

// XProp is a property.
type XProp struct {
	ID   uint32
	Data []byte
}

type xwriter struct {
	f      *XFile
	r      *rt.Rng
	w      int // pointer width
	chunks []*chunk
	plain  bool
	used   []string
	tiles  map[string]*chunk // to be stored once
	share  bool
}

func (w *xwriter) chunk() *chunk {
	c := new(chunk)
	w.chunks = append(w.chunks, c)

	return c
}

// EncodeRLE compresses a channel of a tile in a random way.
func EncodeRLE(r *rt.Rng, b []byte) []byte {
	var o []byte

	plain := r.P(6)

	for i := 0; i < len(b); {
		if r.P(60) { // an empty run
			o = append(o, byte(r.Pick(127, 128)), 0, 0)
			if o[len(o)-3] == 127 {
				o = append(o, 77)
			}
		}

		n := 1
		for i+n < len(b) && b[i+n] == b[i] {
			n++
		}

		if !plain && (n > 3 || n > 1 && r.P(3) || r.P(10)) {
			if r.P(5) {
				n = r.R(1, n)
			}

			if n > 127 || r.P(12) {
				o = append(o, 127, byte(n>>8), byte(n), b[i])
			} else {
				o = append(o, byte(n-1), b[i])
			}

			i += n

			continue
		}

		n = r.Pick(1, 2, 3, 10, 100, 126, 127, 128, 129, 500, 4096)
		if n > len(b)-i {
			n = len(b) - i
		}

		if n > 127 || r.P(12) {
			o = append(o, 128, byte(n>>8), byte(n))
		} else {
			o = append(o, byte(256-n))
		}

		o = append(o, b[i:i+n]...)
		i += n
	}

	return o
}

func (w *xwriter) hierarchy(width, height int, ch [][]byte) *chunk {
	r := w.r
	h := w.chunk()
	h.u32k("hierarchy width", uint32(width))
	h.u32k("hierarchy height", uint32(height))
	h.u32k("bytes per pixel", uint32(len(ch)))

	lv := w.chunk()
	h.ptr(w.w, lv)

	lv.u32k("level width", uint32(width))
	lv.u32k("level height", uint32(height))

	for y := 0; y < height; y += 64 {
		for x := 0; x < width; x += 64 {
			tw, th := width-x, height-y
			if tw > 64 {
				tw = 64
			}

			if th > 64 {
				th = 64
			}

			planes := make([][]byte, len(ch))

			for k := range ch {
				for j := 0; j < th; j++ {
					o := (y+j)*width + x
					planes[k] = append(planes[k], ch[k][o:o+tw]...)
				}
			}

			key := fmt.Sprintf("%d %d %s", len(planes), len(planes[0]), bytes.Join(planes, nil))
			if t := w.tiles[key]; t != nil && (w.f.Share || r.B()) { // stored once for both
				lv.ptr(w.w, t)

				continue
			}

			t := w.chunk()
			lv.ptr(w.w, t)

			if w.share {
				w.tiles[key] = t
			}

			if w.f.RLE {
				for _, p := range planes {
					t.bytes(EncodeRLE(r, p)...)
				}
			} else { // pixel by pixel
				for i := range planes[0] {
					for k := range planes {
						t.u8(planes[k][i])
					}
				}
			}
		}
	}

	lv.ptr(w.w, nil)

	if !w.plain { // smaller levels, which nobody uses
		ww, hh := width, height

		for (ww > 64 || hh > 64) && r.P(2) {
			ww, hh = (ww+1)/2, (hh+1)/2
			d := w.chunk()
			d.u32(uint32(ww))
			d.u32(uint32(hh))
			d.ptr(w.w, nil)
			h.ptr(w.w, d)
		}
	}

	h.ptr(w.w, nil)

	return h
}

type xprop struct {
	id   uint32
	body *chunk
}

func (w *xwriter) prop(id uint32, f func(c *chunk)) xprop {
	c := new(chunk)
	f(c)

	return xprop{id, c}
}

func (w *xwriter) props(c *chunk, ps []xprop) {
	for _, p := range ps {
		c.u32k("property", p.id)
		c.u32k("property length", uint32(len(p.body.data)))

		for _, f := range p.body.refs {
			c.refs = append(c.refs, chunkRef{len(c.data) + f.off, f.to})
		}

		for _, m := range p.body.marks {
			kind := fmt.Sprintf("property %d", p.id)
			if m.Kind != "" {
				kind += " " + m.Kind
			}

			c.marks = append(c.marks, XField{len(c.data) + m.Off, m.Size, kind})
		}

		c.bytes(p.body.data...)
		w.used = append(w.used, fmt.Sprint(p.id))
	}

	c.u32k("end of properties", 0)
	c.u32k("length of the end", 0)
}

func u32p(vs ...uint32) func(*chunk) {
	return func(c *chunk) {
		for _, v := range vs {
			c.u32(v)
		}
	}
}

func (w *xwriter) parasite(c *chunk, name string, flags uint32, data []byte) {
	c.u32(uint32(len(name) + 1))
	c.data = append(append(c.data, name...), 0)
	c.u32(flags)
	c.u32(uint32(len(data)))
	c.bytes(data...)
}

func (w *xwriter) randParasite(c *chunk) {
	r := w.r
	b := make([]byte, r.Pick(0, 1, 5, 40))

	for i := range b {
		b[i] = r.U8()
	}

	w.parasite(c, r.PickS("gimp-comment", "icc-profile", "jpeg-settings", "x"), uint32(r.N(4)), b)
}

func (w *xwriter) junk(id uint32, n int) xprop {
	return w.prop(id, func(c *chunk) {
		for i := 0; i < n; i++ {
			c.u8(w.r.U8())
		}
	})
}

func bit(b bool) uint32 {
	if b {
		return 1
	}

	return 0
}

// image properties that change nothing
func (w *xwriter) imageExtras() []xprop {
	var (
		ps []xprop
		r  = w.r
		p  = func() bool { return r.P(4) }
	)

	if p() {
		n := r.R(0, 5)
		ps = append(ps, w.prop(18, func(c *chunk) { // guides
			for i := 0; i < n; i++ {
				c.u32(uint32(int32(r.R(-5, 50))))
				c.u8(uint8(r.R(1, 2)))
			}
		}))
	}

	if p() {
		ps = append(ps, w.prop(19, func(c *chunk) { c.f32(72); c.f32(300.5) }))
	}

	if p() {
		ps = append(ps, w.prop(20, u32p(r.U32())))
	}

	if p() {
		ps = append(ps, w.prop(21, func(c *chunk) {
			for i := r.N(4); i > 0; i-- {
				w.randParasite(c)
			}
		}))
	}

	if p() {
		ps = append(ps, w.prop(22, u32p(uint32(r.R(0, 4)))))
	}

	if p() {
		ps = append(ps, w.prop(23, func(c *chunk) { // paths
			n := r.R(0, 3)
			c.u32(0)
			c.u32(uint32(n))

			for i := 0; i < n; i++ {
				c.str(r, r.PickS("path", "", "pfad ü"))
				c.u32(uint32(r.N(2)))
				c.u8(uint8(r.Pick(2, 4)))
				c.u32(uint32(r.N(2)))

				np := r.N(5)
				v := r.R(1, 3)
				c.u32(uint32(np))
				c.u32(uint32(v))

				if v > 1 {
					c.u32(1)
				}

				if v > 2 {
					c.u32(r.U32())
				}

				for k := 0; k < np; k++ {
					c.u32(uint32(r.R(1, 2)))
					c.f32(1.5)
					c.f32(-3)
				}
			}
		}))
	}

	if p() {
		ps = append(ps, w.prop(24, func(c *chunk) {
			c.f32(2.5)
			c.u32(3)

			for i := 0; i < 5; i++ {
				c.str(r, r.PickS("unit", "", "einheiten"))
			}
		}))
	}

	if p() {
		ps = append(ps, w.prop(25, func(c *chunk) { // vectors
			n := r.R(0, 3)
			c.u32(1)
			c.u32(0)
			c.u32(uint32(n))

			for i := 0; i < n; i++ {
				m, k := r.N(3), r.N(4)

				c.str(r, r.PickS("vectors", "", "ü"))
				c.u32(r.U32())
				c.u32(uint32(r.N(2)))
				c.u32(uint32(r.N(2)))
				c.u32(uint32(m))
				c.u32(uint32(k))

				for ; m > 0; m-- {
					w.randParasite(c)
				}

				for ; k > 0; k-- {
					nf, np := r.R(2, 6), r.N(5)

					c.u32(1)
					c.u32(uint32(r.N(2)))
					c.u32(uint32(nf))
					c.u32(uint32(np))

					for q := 0; q < np; q++ {
						c.u32(uint32(r.N(2)))

						for z := 0; z < nf; z++ {
							c.f32(float32(r.F()))
						}
					}
				}
			}
		}))
	}

	if p() {
		ps = append(ps, w.junk(27, 8*r.N(4)))
	}

	if p() {
		ps = append(ps, w.prop(39, func(c *chunk) {
			for i := r.N(4); i > 0; i-- {
				c.u32(uint32(r.N(50)))
				c.u32(uint32(r.N(50)))
				c.u32(uint32(r.N(2)))
			}
		}))
	}

	if p() && w.f.Base != 2 { // a colour map without use
		n := r.Pick(0, 1, 7, 256)
		ps = append(ps, w.prop(1, func(c *chunk) {
			c.u32(uint32(n))

			for i := 0; i < 3*n; i++ {
				c.u8(r.U8())
			}
		}))
	}

	for p() {
		ps = append(ps, w.junk(uint32(r.Pick(40, 41, 42, 99, 1000, 0x7fffffff)), r.N(20)))
	}

	return ps
}

func (w *xwriter) channel(width, height int, pix []byte) *chunk {
	r := w.r
	c := w.chunk()
	c.u32k("mask width", uint32(width))
	c.u32k("mask height", uint32(height))
	c.str(r, r.PickS("mask", "", "Ebenenmaske ü"))

	var ps []xprop

	add := func(id uint32, f func(*chunk)) {
		if !w.plain && r.B() {
			ps = append(ps, w.prop(id, f))
		}
	}
	add(6, u32p(uint32(r.Edge8())))
	add(8, u32p(uint32(r.N(2))))
	add(9, u32p(uint32(r.N(2))))
	add(14, u32p(uint32(r.N(2))))
	add(16, func(c *chunk) { c.bytes(1, 2, 3) })
	add(20, u32p(9))
	add(33, func(c *chunk) { c.f32(0.5) })
	add(38, func(c *chunk) { c.f32(0.5); c.f32(0); c.f32(1) })
	add(21, func(c *chunk) { w.randParasite(c) })
	r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	w.props(c, ps)
	c.ptr(w.w, w.hierarchy(width, height, [][]byte{pix}))

	return c
}

func (w *xwriter) layer(l *XLayer, path []uint32) *chunk {
	r := w.r
	c := w.chunk()
	c.u32k("layer width", uint32(l.W))
	c.u32k("layer height", uint32(l.H))
	c.u32k("layer type", uint32(w.f.Base)*2+bit(l.Alpha))
	c.mark("layer name", 4)
	c.str(r, l.Name)

	var ps []xprop

	if l.Opacity != 255 || w.plain || r.P(2) {
		switch {
		case w.plain || w.f.Version < 10 || r.P(3):
			ps = append(ps, w.prop(6, u32p(uint32(l.Opacity))))
		default: // both, in GIMP's order, or only the float
			f := w.prop(33, func(c *chunk) {
				v := float32(l.Opacity) / 255
				if v > 0.01 && v < 0.99 && r.B() { // not on a level
					v += float32(r.F()-0.5) * 0.9 / 255
				}

				c.f32(v)
			})
			ps = append(ps, f)
		}
	}

	if l.Hidden || w.plain || r.P(2) {
		ps = append(ps, w.prop(8, u32p(bit(!l.Hidden))))
	}

	if l.X != 0 || l.Y != 0 || w.plain || r.P(2) {
		ps = append(ps, w.prop(15, u32p(uint32(int32(l.X)), uint32(int32(l.Y)))))
	}

	if l.Mode != 0 || w.plain || r.P(2) {
		ps = append(ps, w.prop(7, u32p(l.Mode)))
	}

	if l.Path != nil {
		path = l.Path
		ps = append(ps, w.prop(30, u32p(path...)))
	} else if len(path) > 1 {
		ps = append(ps, w.prop(30, u32p(path...)))
	}

	if l.Group {
		ps = append(ps, w.prop(29, u32p()))
	}

	if l.Text != nil {
		ps = append(ps, w.prop(26, u32p(0)), w.prop(21, func(c *chunk) {
			for k := r.N(3); k > 0; k-- {
				w.randParasite(c)
			}

			w.parasite(c, "gimp-text-layer", 1, append([]byte(l.Text.Raw), 0))

			for k := r.N(2); k > 0; k-- {
				w.randParasite(c)
			}
		}))
	}

	if !w.plain {
		add := func(id uint32, f func(*chunk)) {
			if r.P(3) {
				ps = append(ps, w.prop(id, f))
			}
		}
		b := func() func(*chunk) { return u32p(uint32(r.N(2))) }

		add(9, b())
		add(10, b())
		add(11, b())
		add(12, b())
		add(13, b())
		add(20, u32p(r.U32()))
		add(28, b())
		add(31, b())
		add(32, b())
		add(34, u32p(uint32(r.N(9))))
		add(35, u32p(uint32(r.N(5))))
		add(36, u32p(uint32(int32(-r.N(4)))))
		add(37, u32p(uint32(r.N(4))))

		if l.Text == nil {
			add(21, func(c *chunk) { w.randParasite(c) })
		}

		if r.P(6) {
			ps = append(ps, w.prop(2, u32p()))
		}

		if r.P(10) { // the drawable that a floating selection is attached to
			ps = append(ps, w.prop(5, func(k *chunk) { k.ptr(w.w, c) }))
		}

		if r.P(4) {
			ps = append(ps, w.junk(uint32(r.Pick(40, 41, 77, 12345)), r.N(30)))
		}

		r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })

		// the float opacity is the more precise one and follows the other
		for i := range ps {
			if ps[i].id == 33 && r.B() {
				ps = append(ps[:i:i], append([]xprop{w.prop(6, u32p(uint32(l.Opacity)))}, ps[i:]...)...)

				break
			}
		}
	}

	for _, x := range l.Extra {
		x := x
		ps = append(ps, w.prop(x.ID, func(c *chunk) { c.bytes(x.Data...) }))
	}

	w.props(c, ps)

	var h *chunk

	if l.Group {
		ch := make([][]byte, w.f.Channels(true))
		for i := range ch {
			ch[i] = make([]byte, l.W*l.H)
		}

		h = w.hierarchy(l.W, l.H, ch)
	} else {
		h = w.hierarchy(l.W, l.H, l.Chan)
	}

	c.ptr(w.w, h)

	if l.Mask != nil {
		c.ptr(w.w, w.channel(l.W, l.H, l.Mask))
	} else {
		c.ptr(w.w, nil)
	}

	return c
}

// Write writes the file. Plain writes only what is needed, in order.
func (f *XFile) Write(r *rt.Rng, plain bool) []byte {
	b, _, _ := f.write(r, plain)

	return b
}

// WriteProps also tells which properties were used.
func (f *XFile) WriteProps(r *rt.Rng, plain bool) ([]byte, []string) {
	b, p, _ := f.write(r, plain)

	return b, p
}

// WriteFields also tells where the fields are.
func (f *XFile) WriteFields(r *rt.Rng, plain bool) ([]byte, []XField) {
	b, _, m := f.write(r, plain)

	return b, m
}

func (f *XFile) write(r *rt.Rng, plain bool) ([]byte, []string, []XField) {
	w := &xwriter{f: f, r: r, w: 4, plain: plain, tiles: map[string]*chunk{}, share: f.Share || !plain && r.P(3)}

	if f.Version >= 11 {
		w.w = 8
	}

	head := w.chunk()
	head.bytes([]byte("gimp xcf ")...)

	if f.Version == 0 {
		head.bytes([]byte("file\x00")...)
	} else {
		head.bytes([]byte(fmt.Sprintf("v%03d\x00", f.Version))...)
	}

	head.u32k("canvas width", uint32(f.W))
	head.u32k("canvas height", uint32(f.H))
	head.u32k("base type", uint32(f.Base))

	if f.Version == 4 {
		head.u32k("precision", 0)
	} else if f.Version > 4 {
		head.u32k("precision", uint32(r.Pick(100, 150, 150)))
	}

	var ps []xprop

	if f.Base == 2 {
		ps = append(ps, w.prop(1, func(c *chunk) {
			c.u32(uint32(len(f.Palette)))

			for _, p := range f.Palette {
				c.bytes(p.R, p.G, p.B)
			}
		}))
	}

	if f.RLE || r.B() {
		ps = append(ps, w.prop(17, func(c *chunk) { c.u8(uint8(bit(f.RLE))) }))
	}

	if !plain {
		ps = append(ps, w.imageExtras()...)
		r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	}

	for _, x := range f.Extra {
		x := x
		ps = append(ps, w.prop(x.ID, func(c *chunk) { c.bytes(x.Data...) }))
	}

	w.props(head, ps)

	var walk func(ls []*XLayer, path []uint32)

	walk = func(ls []*XLayer, path []uint32) {
		for n, l := range ls {
			p := append(append([]uint32(nil), path...), uint32(n))
			head.ptr(w.w, w.layer(l, p))
			walk(l.Kids, p)
		}
	}

	walk(f.Layers, nil)
	head.ptr(w.w, nil)

	if !plain && f.W*f.H < 1<<20 && r.P(4) { // a saved channel
		head.ptr(w.w, w.channel(f.W, f.H, make([]byte, f.W*f.H)))
	}

	head.ptr(w.w, nil)

	rest := w.chunks[1:]

	if !plain && r.B() {
		r.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
	}

	var out []byte

	for _, c := range w.chunks {
		c.at = len(out)
		out = append(out, c.data...)

		if !plain && r.P(8) {
			out = append(out, make([]byte, r.R(1, 9))...)
		}
	}

	w.hole(len(out))

	for _, c := range w.chunks {
		for _, p := range c.refs {
			if w.w == 4 {
				binary.BigEndian.PutUint32(out[c.at+p.off:], uint32(f.where(p.to.at)))
			} else {
				binary.BigEndian.PutUint64(out[c.at+p.off:], f.where(p.to.at))
			}
		}
	}

	sort.Strings(w.used)

	var fields []XField

	for _, c := range w.chunks {
		for _, m := range c.marks {
			m.Off += c.at
			fields = append(fields, m)
		}
	}

	return out, w.used, fields
}
