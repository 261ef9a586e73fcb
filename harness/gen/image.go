package gen

import (
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"strings"

	"verif/rt"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
)

// Points calls f for every point of a rectangle, or for n random ones and the
// corners when there are more.
func Points(r *rt.Rng, rect image.Rectangle, n int, f func(x, y int)) {
	w, h := rect.Dx(), rect.Dy()
	if w <= 0 || h <= 0 {
		return
	}

	if w*h <= n {
		for y := rect.Min.Y; y < rect.Max.Y; y++ {
			for x := rect.Min.X; x < rect.Max.X; x++ {
				f(x, y)
			}
		}

		return
	}

	for _, x := range []int{rect.Min.X, rect.Max.X - 1} {
		for _, y := range []int{rect.Min.Y, rect.Max.Y - 1} {
			f(x, y)
		}
	}

	for i := 0; i < n; i++ {
		f(rect.Min.X+r.N(w), rect.Min.Y+r.N(h))
	}
}

// Palette makes a palette of n opaque entries, or of a random number when n
// is 0.
func Palette(r *rt.Rng, n int) color.Palette {
	if n == 0 {
		n = r.Pick(1, 2, 3, 4, 16, 255, 256, r.R(1, 256))
	}

	p := make(color.Palette, n)
	style := r.N(4)

	for i := range p {
		switch style {
		case 0:
			p[i] = lcolor.RGB{R: r.U8(), G: r.U8(), B: r.U8()}
		case 1:
			y := r.U8()
			p[i] = color.RGBA{y, y, y, 0xff}
		case 2: // clustered
			p[i] = color.NRGBA{0x80 + uint8(r.N(16)), 0x40 + uint8(r.N(16)), uint8(r.N(16)), 0xff}
		default:
			p[i] = lcolor.RGB{R: r.Edge8(), G: r.Edge8(), B: r.Edge8()}
		}
	}

	return p
}

// Hidden wraps an image so that its type tells nothing.
type Hidden struct{ I image.Image }

func (h *Hidden) ColorModel() color.Model     { return h.I.ColorModel() }
func (h *Hidden) Bounds() image.Rectangle     { return h.I.Bounds() }
func (h *Hidden) At(x, y int) color.Color     { return h.I.At(x, y) }
func (h *Hidden) Set(x, y int, c color.Color) { h.I.(draw.Image).Set(x, y, c) }

// Kinds of leaf image.
const (
	KRGBA = iota
	KNRGBA
	KRGBA64
	KNRGBA64
	KGray
	KGray16
	KAlpha
	KCMYK
	KPaletted
	KRGB
	KGrayAlpha
	KPalettedAlpha
	KHidden
	KUniform
	KYCbCr
	NKinds
)

// fillStyle draws a picture with structure: runs, noise, flat areas.
type painter struct {
	r     *rt.Rng
	style int
	cur   color.Color
	left  int
	any   bool
}

func newPainter(r *rt.Rng, any bool) *painter { return &painter{r: r, style: r.N(5), any: any} }

func (p *painter) fresh() color.Color {
	if p.any && p.r.P(3) {
		return AnyColour(p.r)
	}

	return color.NRGBA{p.r.Edge8(), p.r.Edge8(), p.r.Edge8(), p.r.Edge8()}
}

func (p *painter) next() color.Color {
	switch p.style {
	case 0: // flat
		if p.cur == nil {
			p.cur = p.fresh()
		}
	case 1: // noise
		p.cur = p.fresh()
	default: // runs
		if p.left == 0 {
			p.cur = p.fresh()
			p.left = p.r.Pick(1, 1, 2, 3, 5, 17, 64, 127, 128, 129, 200, 300)
		}

		p.left--
	}

	return p.cur
}

// NewLeaf makes and fills a leaf image.
func NewLeaf(r *rt.Rng, kind int, rect image.Rectangle, pal color.Palette, any bool) image.Image {
	var d draw.Image

	switch kind {
	case KRGBA:
		d = image.NewRGBA(rect)
	case KNRGBA:
		d = image.NewNRGBA(rect)
	case KRGBA64:
		d = image.NewRGBA64(rect)
	case KNRGBA64:
		d = image.NewNRGBA64(rect)
	case KGray:
		d = image.NewGray(rect)
	case KGray16:
		d = image.NewGray16(rect)
	case KAlpha:
		d = image.NewAlpha(rect)
	case KCMYK:
		d = image.NewCMYK(rect)
	case KPaletted:
		d = image.NewPaletted(rect, pal)
	case KRGB:
		d = limage.NewRGB(rect)
	case KGrayAlpha:
		d = limage.NewGrayAlpha(rect)
	case KPalettedAlpha:
		d = limage.NewPalettedAlpha(rect, lcolor.AlphaPalette(pal))
	case KHidden:
		h := &Hidden{image.NewNRGBA(rect)}
		Fill(r, h, any)

		return h
	case KUniform:
		return image.NewUniform(color.NRGBA{r.Edge8(), r.Edge8(), r.Edge8(), r.Edge8()})
	default:
		y := image.NewYCbCr(rect, image.YCbCrSubsampleRatio444)
		for i := range y.Y {
			y.Y[i], y.Cb[i], y.Cr[i] = r.Edge8(), r.Edge8(), r.Edge8()
		}

		return y
	}

	Fill(r, d, any)

	return d
}

// Fill paints a picture.
func Fill(r *rt.Rng, d draw.Image, any bool) {
	rect := d.Bounds()
	p := newPainter(r, any)

	for y := rect.Min.Y; y < rect.Max.Y; y++ {
		for x := rect.Min.X; x < rect.Max.X; x++ {
			c := p.next()

			switch d := d.(type) {
			case *image.NRGBA: // keep the colour of transparent pixels
				if n, ok := c.(color.NRGBA); ok {
					d.SetNRGBA(x, y, n)
				} else {
					d.Set(x, y, c)
				}
			case *limage.GrayAlpha:
				if n, ok := c.(color.NRGBA); ok {
					d.SetGrayAlpha(x, y, lcolor.GrayAlpha{Y: n.R, A: n.A})
				} else {
					d.Set(x, y, c)
				}
			case *limage.PalettedAlpha:
				n, _ := c.(color.NRGBA)
				d.SetIndexAlpha(x, y, lcolor.IndexedAlpha{I: uint8((int(n.R)*256 + int(n.G)) % len(d.Palette)), A: n.A})
			case *image.Paletted:
				n, _ := c.(color.NRGBA)
				d.SetColorIndex(x, y, uint8((int(n.R)*256+int(n.G))%len(d.Palette)))
			case *image.NRGBA64: // with finer steps than 8 bits
				if any && r.P(3) {
					d.SetNRGBA64(x, y, color.NRGBA64{r.Edge16(), r.Edge16(), r.Edge16(), r.Edge16()})
				} else {
					d.Set(x, y, c)
				}
			default:
				d.Set(x, y, c)
			}
		}
	}
}

// Tree says what layered images to make.
type Tree struct {
	Kinds      []int              // of leaf images
	Modes      []limage.Composite // to choose from
	MaxLayers  int                // per group
	MaxSize    int                // of a leaf's side
	MaxOffset  int                // of a layer, either way
	Groups     bool
	Masks      bool // MaskedImage leaves
	GroupMasks bool // and groups
	Texts      bool
	Overhang   bool // groups with layers that are partly or wholly outside them, even without Misfit
	Misfit     bool // leaf bounds that are not their image's, images off the origin
	Empty      bool // empty layers and groups
	Origin     bool // image off the origin allowed (top-level Min not 0)
	AnyColours bool
	Names      func(r *rt.Rng) string
	Palette    color.Palette
	NoHide     bool
	NoStress   bool // no unusual shapes
	NoDissolve bool // nothing random
	Snug       bool // groups that hold their layers, even with Misfit
	MinLayers  int
}

// DefaultTree is for everything that is not encoded.
func DefaultTree(r *rt.Rng) *Tree {
	t := &Tree{
		Kinds:     []int{KRGBA, KNRGBA, KNRGBA, KRGBA64, KNRGBA64, KGray, KGray16, KAlpha, KCMYK, KPaletted, KRGB, KGrayAlpha, KPalettedAlpha, KHidden, KUniform, KYCbCr},
		MaxLayers: 4, MaxSize: 12, MaxOffset: 10, Groups: true, Masks: true, GroupMasks: true, Texts: true, Misfit: true, Empty: true, Origin: true,
		Palette: Palette(r, 0),
	}

	for i := 0; i < NModes+1; i++ {
		t.Modes = append(t.Modes, limage.Composite(i))
	}

	if r.P(8) { // an indexed image
		t.Kinds = []int{KPaletted, KPaletted, KPaletted, KNRGBA}
	}

	return t
}

func (t *Tree) name(r *rt.Rng) string {
	if t.Names != nil {
		return t.Names(r)
	}

	return Name(r)
}

// Name makes a layer name of XML-legal characters.
func Name(r *rt.Rng) string {
	switch r.N(6) {
	case 0:
		return "Background"
	case 1:
		return ""
	case 2:
		return "<a href=\"x\">&amp;'quoted' \\ 100%"
	case 3:
		return "Ünïcødé 図層 \U0001f5bc  two  spaces "
	}

	n := r.R(1, 20)
	s := make([]rune, n)

	for i := range s {
		s[i] = nameRunes[r.N(len(nameRunes))]
	}

	return string(s)
}

var nameRunes = []rune("abcXYZ012 -_.,;:#&<>\"'\\/()[]{}é漢\u00a0\u2028\U0001f600\ufffd")

// Leaf makes a leaf image with bounds r.
func (t *Tree) leaf(r *rt.Rng, rect image.Rectangle) image.Image {
	i := NewLeaf(r, t.Kinds[r.N(len(t.Kinds))], rect, t.Palette, t.AnyColours)

	if t.Texts && r.P(6) {
		i = limage.Text{Image: i, TextData: RandText(r)}
	}

	return t.mask(r, i, t.Masks && r.P(5))
}

func (t *Tree) mask(r *rt.Rng, i image.Image, do bool) image.Image {
	if !do {
		return i
	}

	b := i.Bounds()
	if b.Dx() > 1000 { // a uniform image
		b = image.Rect(0, 0, r.R(1, t.MaxSize), r.R(1, t.MaxSize))
	}

	if t.Misfit && r.P(4) {
		b = b.Inset(r.R(-2, 2))
	}

	m := image.NewGray(b)
	Fill(r, m, false)

	if r.P(4) {
		for n := range m.Pix {
			m.Pix[n] = 255
		}
	}

	return limage.MaskedImage{Image: i, Mask: m}
}

// Image makes a layered image with up to depth levels of groups.
func (t *Tree) Image(r *rt.Rng, depth int) limage.Image {
	n := r.R(1, t.MaxLayers)
	if t.Empty && r.P(12) {
		n = 0
	}

	if n < t.MinLayers {
		n = t.MinLayers
	}

	img := make(limage.Image, n)

	for i := range img {
		img[i] = t.Layer(r, depth)
	}

	return img
}

// Stress turns an image into an unusually shaped one: with hundreds of layers,
// nested tens of levels deep, with a layer far away, a large one, or with very
// long names.
func (t *Tree) Stress(r *rt.Rng, img limage.Image) limage.Image {
	u := *t
	u.MaxSize, u.MaxLayers, u.Groups = 3, 3, false

	group := func(g limage.Image) limage.Layer {
		b := g.Bounds()
		Move(g, image.Point{}.Sub(b.Min))

		l := u.Layer(r, 0)
		l.LayerBounds = image.Rectangle{Max: b.Size()}.Add(l.LayerBounds.Min)
		l.Image = g

		return l
	}

	many := func(n int) (i limage.Image) {
		for len(i) < n {
			l := u.Layer(r, 0)

			if r.P(2) {
				l.Name = fmt.Sprint(len(i))
			}

			if t.Groups && (len(i) == n-1 || r.P(50)) { // among many
				l.LayerBounds = image.Rectangle{Max: l.LayerBounds.Size()}
				g := limage.Image{l}

				if r.B() {
					g = append(g, u.Layer(r, 0))
				}

				l = group(g)
			}

			i = append(i, l)
		}

		return i
	}

	at := func(l limage.Layer) {
		n := r.N(len(img) + 1)
		img = append(img[:n:n], append(limage.Image{l}, img[n:]...)...)
	}

	switch r.N(7) {
	case 0:
		img = append(img, many(r.Pick(255, 256, 257, r.R(100, 600)))...)
	case 1:
		if t.Groups {
			at(group(many(r.Pick(127, 128, 255, 256, 257, r.R(100, 400)))))
		}
	case 2:
		if t.Groups {
			g := many(2)

			for n := r.R(5, 60); n > 0; n-- {
				l := group(g)
				g = limage.Image{l}

				if r.P(3) {
					g = append(g, many(1)...)
				} else if r.P(3) {
					g = append(many(1), l)
				}
			}

			at(group(g))
		}
	case 3: // far to the right or below, or left or above
		l := u.Layer(r, 0)
		d := r.Pick(255, 256, 257, 300, 511, 512, 1000, 2047)

		if r.B() {
			d = -d
		}

		if r.B() {
			l.LayerBounds = l.LayerBounds.Add(image.Pt(d, 0))
		} else {
			l.LayerBounds = l.LayerBounds.Add(image.Pt(0, d))
		}

		at(l)
	case 4: // wide or tall
		w, h := r.Pick(127, 128, 129, 255, 256, 257, 300, 1000, 4095, 4097, 5000), r.R(1, 6)
		if r.B() {
			w, h = h, w
		}

		l := u.Layer(r, 0)
		l.Image = u.leaf(r, image.Rect(0, 0, w, h))
		l.LayerBounds = image.Rectangle{Max: image.Pt(w, h)}.Add(l.LayerBounds.Min)
		at(l)
	case 5:
		l := u.Layer(r, 0)
		l.Name = strings.Repeat(r.PickS("x", "ü", "<&> \"'", "漢 "), r.Pick(100, 127, 128, 255, 256, 1000, 70000))
		at(l)
	default: // all at one place
		img = append(img, many(r.R(20, 60))...)

		for n := range img {
			img[n].LayerBounds = img[n].LayerBounds.Sub(img[n].LayerBounds.Min)
		}
	}

	return img
}

// Move shifts the layers of an image.
func Move(i limage.Image, p image.Point) {
	for n := range i {
		i[n].LayerBounds = i[n].LayerBounds.Add(p)
	}
}

// Layer makes one layer, which may be a group.
func (t *Tree) Layer(r *rt.Rng, depth int) limage.Layer {
	l := limage.Layer{Name: t.name(r)}

	if len(t.Modes) > 0 && !r.P(3) {
		l.Mode = t.Modes[r.N(len(t.Modes))]
	}

	if t.NoDissolve && l.Mode == limage.CompositeDissolve {
		l.Mode = limage.CompositeNormal
	}

	if !t.NoHide {
		l.Invisible = r.P(6)
	}

	if r.P(3) {
		l.Transparency = r.Edge8()
	}

	off := image.Pt(r.R(-t.MaxOffset, t.MaxOffset), r.R(-t.MaxOffset, t.MaxOffset))
	if r.P(3) {
		off = image.Point{}
	}

	if t.Groups && depth > 0 && r.P(3) {
		g := t.Image(r, depth-1)
		// a group's bounds contain its children, which are placed from its origin
		b := g.Bounds()
		if t.Overhang && r.P(5) {
			Move(g, image.Pt(r.R(-t.MaxOffset, t.MaxOffset), r.R(-t.MaxOffset, t.MaxOffset)).Sub(b.Min))
			b = image.Rect(0, 0, r.R(1, t.MaxSize*2), r.R(1, t.MaxSize*2))
		} else if t.Snug || !(t.Misfit && r.P(3)) {
			Move(g, image.Pt(0, 0).Sub(b.Min).Add(image.Pt(r.N(3), r.N(3))))
			b = g.Bounds()
			b.Min = image.Point{}
		} else {
			b = image.Rect(0, 0, r.R(1, t.MaxSize*2), r.R(1, t.MaxSize*2))
		}

		if b.Empty() && !t.Empty {
			b = image.Rect(0, 0, 1, 1)
		}

		l.LayerBounds = b.Add(off)
		l.Image = t.mask(r, g, t.GroupMasks && r.P(5))

		if m, ok := l.Image.(limage.MaskedImage); ok && !t.Misfit {
			m.Mask = image.NewGray(image.Rect(0, 0, b.Dx(), b.Dy()))
			Fill(r, m.Mask, false)
			l.Image = m
		}

		return l
	}

	w, h := r.R(1, t.MaxSize), r.R(1, t.MaxSize)

	switch {
	case t.Empty && r.P(20):
		w = 0
	case r.P(12):
		w = 1
	case r.P(12):
		h = 1
	}

	rect := image.Rect(0, 0, w, h)
	if t.Misfit && r.P(5) {
		rect = rect.Add(image.Pt(r.R(-2, 2), r.R(-2, 2)))
	}

	l.Image = t.leaf(r, rect)
	l.LayerBounds = image.Rect(0, 0, w, h).Add(off)

	if t.Misfit && r.P(5) {
		l.LayerBounds.Max = l.LayerBounds.Max.Add(image.Pt(r.R(-1, 3), r.R(-1, 3)))
		if l.LayerBounds.Empty() {
			l.LayerBounds.Max = l.LayerBounds.Min.Add(image.Pt(1, 1))
		}
	}

	return l
}

var fonts = []string{"Sans", "DejaVu Sans Mono Bold", "Nimbus Roman No9 L", "Serif Italic"}

// RandText makes the pieces of a text layer.
func RandText(r *rt.Rng) limage.TextData {
	n := r.Pick(0, 1, 1, 2, 3, 5)
	t := make(limage.TextData, n)

	for i := range t {
		t[i] = limage.TextDatum{
			ForeColor:     lcolor.RGB{R: r.Edge8(), G: r.Edge8(), B: r.Edge8()},
			BackColor:     lcolor.RGB{R: r.Edge8(), G: r.Edge8(), B: r.Edge8()},
			Size:          uint32(r.R(1, 500)),
			LetterSpacing: uint32(r.Pick(0, 0, r.N(100))),
			Rise:          uint32(r.Pick(0, 0, r.N(100))),
			Bold:          r.B(), Italic: r.B(), Underline: r.B(), Strikethrough: r.B(),
			Font: fonts[r.N(len(fonts))],
			Data: TextString(r),
		}
	}

	return t
}

// TextString makes a text of XML-legal characters.
func TextString(r *rt.Rng) string {
	n := r.Pick(0, 1, 2, 5, 12, 30)
	s := make([]rune, n)

	for i := range s {
		s[i] = textRunes[r.N(len(textRunes))]
	}

	return string(s)
}

var textRunes = []rune("abc XYZ 019\"\"\\\\\n\t<>&'()#é漢字\u00a0\u2028\U0001f600%;{}[]=/")

// DescribeImage writes an image's structure out.
func DescribeImage(i image.Image) string {
	var sb strings.Builder

	describe(&sb, i)

	return sb.String()
}

func describe(sb *strings.Builder, i image.Image) {
	switch i := i.(type) {
	case nil:
		sb.WriteString("nil")
	case *limage.Image:
		sb.WriteString("&")
		describe(sb, *i)
	case *limage.Layer:
		sb.WriteString("&")
		describe(sb, *i)
	case *limage.Text:
		sb.WriteString("&")
		describe(sb, *i)
	case *limage.MaskedImage:
		sb.WriteString("&")
		describe(sb, *i)
	case limage.Image:
		sb.WriteString("Image{")

		for n, l := range i {
			if n > 0 {
				sb.WriteString(", ")
			}

			describe(sb, l)
		}

		sb.WriteString("}")
	case limage.Layer:
		fmt.Fprintf(sb, "Layer{%q %v %s", i.Name, i.LayerBounds, i.Mode)

		if i.Invisible {
			sb.WriteString(" hidden")
		}

		if i.Transparency > 0 {
			fmt.Fprintf(sb, " transparency %d", i.Transparency)
		}

		sb.WriteString(" ")
		describe(sb, i.Image)
		sb.WriteString("}")
	case limage.MaskedImage:
		fmt.Fprintf(sb, "Masked{%v ", i.Mask.Rect)
		describe(sb, i.Image)
		sb.WriteString("}")
	case limage.Text:
		fmt.Fprintf(sb, "Text{%d pieces %q ", len(i.TextData), i.TextData.String())
		describe(sb, i.Image)
		sb.WriteString("}")
	default:
		fmt.Fprintf(sb, "%T%v", i, i.Bounds())
	}
}
