package main

import (
	"bytes"
	"errors"
	"fmt"
	"image"
	"image/color"
	"io"
	"math"

	"verif/gen"
	"verif/rt"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/xcf"
)

var errInjected = errors.New("injected fault")

// sink is a destination that records what is written where, and can fail.
type sink struct {
	b         []byte
	written   []bool
	calls     int
	conflicts []string
	failAt    int // number of the failing call, from 1
	mode      int // 0: nothing is written, 1: a part is; both for good; 2: once
	hit       bool
}

func (s *sink) WriteAt(p []byte, off int64) (int, error) {
	s.calls++

	if off < 0 || off > 1<<31 {
		s.conflicts = append(s.conflicts, fmt.Sprintf("a write at %d", off))

		return 0, errors.New("offset out of range")
	}

	if s.failAt > 0 && (s.calls == s.failAt || s.calls > s.failAt && s.mode != 2) {
		s.hit = true

		n := 0
		if s.mode != 0 {
			n = len(p) / 2
		}

		s.put(p[:n], int(off))

		return n, errInjected
	}

	s.put(p, int(off))

	return len(p), nil
}

func (s *sink) put(p []byte, off int) {
	if end := off + len(p); end > len(s.b) {
		if end > cap(s.b) {
			b := make([]byte, len(s.b), 2*end+1024)
			w := make([]bool, len(s.b), 2*end+1024)
			copy(b, s.b)
			copy(w, s.written)
			s.b, s.written = b, w
		}

		s.b, s.written = s.b[:end], s.written[:end]
	}

	for i, c := range p {
		if s.written[off+i] && s.b[off+i] != c && len(s.conflicts) < 5 {
			s.conflicts = append(s.conflicts, fmt.Sprintf("byte %d is written as %#x, then as %#x", off+i, s.b[off+i], c))
		}

		s.b[off+i] = c
		s.written[off+i] = true
	}
}

func encode(t *rt.T, m image.Image) *sink {
	s := new(sink)

	t.Guard("Encode", func() {
		if err := xcf.Encode(s, m); err != nil {
			t.Fail("Encode fails: %v", err)
		}
	})

	return s
}

func decode(t *rt.T, b []byte, deferred bool) (i limage.Image) {
	i, err := tryDecode(t, b, deferred)
	if err != nil {
		t.Fail("decoding (deferred: %v) fails: %v", deferred, err)
	}

	return i
}

func tryDecode(t *rt.T, b []byte, deferred bool) (i limage.Image, err error) {
	return tryDecodeFrom(t, bytes.NewReader(b), deferred)
}

func tryDecodeFrom(t *rt.T, r io.ReaderAt, deferred bool) (i limage.Image, err error) {
	if deferred {
		t.Guard("DecodeCompressed", func() { i, err = xcf.DecodeCompressed(r) })
	} else {
		t.Guard("Decode", func() { i, err = xcf.Decode(r) })
	}

	return i, err
}

// peel takes a layer's image apart.
func peel(i image.Image) (in image.Image, mask *image.Gray, text limage.TextData, isText bool) {
	for {
		switch j := i.(type) {
		case limage.MaskedImage:
			i, mask = j.Image, j.Mask
		case *limage.MaskedImage:
			i, mask = j.Image, j.Mask
		case limage.Text:
			i, text, isText = j.Image, j.TextData, true
		case *limage.Text:
			i, text, isText = j.Image, j.TextData, true
		default:
			return i, mask, text, isText
		}
	}
}

// target is what an image's pixels are stored as.
type target struct {
	base    int // 0 RGB, 1 grey, 2 indexed
	palette []gen.Straight
}

func targetOf(m image.Image) *target {
	var pal []color.Color

	switch cm := m.ColorModel().(type) {
	case color.Palette:
		pal = cm
	case lcolor.AlphaPalette:
		pal = cm
	default:
		if cm == color.GrayModel || cm == color.Gray16Model || cm == lcolor.GrayAlphaModel {
			return &target{base: 1}
		}

		return &target{}
	}

	t := &target{base: 2}

	for _, c := range pal {
		s := gen.StraightOf(c)
		t.palette = append(t.palette, s)
	}

	return t
}

func near8(f float64, got uint8) bool { return math.Abs(f*255-float64(got)) <= 1.02 }

// pixel compares a stored pixel with the original.
func (k *target) pixel(orig color.Color, got color.NRGBA) string {
	_, _, _, a := orig.RGBA()

	if uint8(a>>8) != got.A {
		return fmt.Sprintf("has alpha %d, want %d", got.A, a>>8)
	}

	if got.A == 0 {
		return ""
	}

	s := gen.StraightOf(orig)

	switch k.base {
	case 0:
		if got == color.NRGBAModel.Convert(orig).(color.NRGBA) {
			return ""
		}

		if !near8(s.R, got.R) || !near8(s.G, got.G) || !near8(s.B, got.B) {
			return fmt.Sprintf("is %v, want %v", got, color.NRGBAModel.Convert(orig))
		}
	case 1:
		if y := 0.299*s.R + 0.587*s.G + 0.114*s.B; got.R != got.G || got.G != got.B || !near8(y, got.R) {
			return fmt.Sprintf("is %v, want a grey of %.2f", got, y*255)
		}
	case 2:
		best, is := math.Inf(1), math.Inf(1)

		for _, p := range k.palette {
			d := math.Hypot(math.Hypot(p.R-s.R, p.G-s.G), p.B-s.B)

			best = math.Min(best, d)

			if math.Abs(p.R*255-float64(got.R)) < 0.51 && math.Abs(p.G*255-float64(got.G)) < 0.51 && math.Abs(p.B*255-float64(got.B)) < 0.51 {
				is = math.Min(is, d)
			}
		}

		slack := 0.002
		if a < 0xffff { // the straight colour is not known exactly
			slack += 2 / float64(a)
		}

		if is > best+slack {
			return fmt.Sprintf("is %v for %v, at a distance of %.4f where an entry of the palette is at %.4f", got, s, is, best)
		}
	}

	return ""
}

func nrgba(c color.Color) color.NRGBA {
	switch c := c.(type) {
	case lcolor.GrayAlpha:
		return color.NRGBA{c.Y, c.Y, c.Y, c.A}
	case color.NRGBA:
		return c
	}

	return color.NRGBAModel.Convert(c).(color.NRGBA)
}

// pixels compares a part of a picture with another.
func (k *target) pixels(want image.Image, b image.Rectangle, size image.Point, at func(x, y int) color.NRGBA) string {
	if b.Size() != size {
		return fmt.Sprintf("size is %v, want %v", size, b.Size())
	}

	for y := 0; y < size.Y; y++ {
		for x := 0; x < size.X; x++ {
			if s := k.pixel(want.At(b.Min.X+x, b.Min.Y+y), at(x, y)); s != "" {
				return fmt.Sprintf("pixel (%d,%d) %s", x, y, s)
			}
		}
	}

	return ""
}

// part is the part of a layer's picture (and mask) that the layer shows.
func part(subject image.Image, l limage.Layer) image.Rectangle {
	switch subject.(type) {
	case limage.Image, *limage.Image, limage.Layer, *limage.Layer:
		return image.Rectangle{Max: l.LayerBounds.Size()}
	}

	return subject.Bounds()
}

// maskPart is a mask within a rectangle, and nothing beyond the mask.
func maskPart(m *image.Gray, r image.Rectangle) *image.Gray {
	if m == nil || m.Rect == r {
		return m
	}

	n := image.NewGray(r)

	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			n.SetGray(x, y, m.GrayAt(x, y))
		}
	}

	return n
}

func sameMask(want, got *image.Gray) string {
	if (want == nil) != (got == nil) {
		return fmt.Sprintf("mask: %v, want %v", got != nil, want != nil)
	}

	if want == nil {
		return ""
	}

	if want.Rect.Size() != got.Rect.Size() {
		return fmt.Sprintf("the mask's size is %v, want %v", got.Rect.Size(), want.Rect.Size())
	}

	if got.Rect.Min != (image.Point{}) && !got.Rect.Empty() {
		return fmt.Sprintf("the mask is at %v", got.Rect)
	}

	for y := 0; y < want.Rect.Dy(); y++ {
		for x := 0; x < want.Rect.Dx(); x++ {
			a, b := want.GrayAt(want.Rect.Min.X+x, want.Rect.Min.Y+y), got.GrayAt(x, y)
			if a != b {
				return fmt.Sprintf("the mask is %v at (%d,%d), want %v", b.Y, x, y, a.Y)
			}
		}
	}

	return ""
}

// encodable makes a tree for the encoder.
func encodable(t *rt.T) *gen.Tree {
	o := gen.DefaultTree(t.Rng)
	o.Empty = false

	if !t.P(3) {
		o.Misfit = false
		ks := o.Kinds[:0]

		for _, k := range o.Kinds {
			if k != gen.KUniform { // has no size
				ks = append(ks, k)
			}
		}

		o.Kinds = ks
	}

	switch t.N(6) {
	case 0: // all of one kind
		o.Kinds = []int{[]int{gen.KGray, gen.KGray16, gen.KGrayAlpha, gen.KPaletted, gen.KPalettedAlpha, gen.KNRGBA}[t.N(6)]}
	case 1:
		o.MaxSize = 70
		o.MaxLayers = 2
	case 2:
		if t.P(4) {
			o.MaxSize = 200
			o.MaxLayers = 1
		}
	}

	return o
}

// subject makes something to encode: a layered image or, less often, a single
// layer or a plain picture, perhaps by pointer.
func subject(t *rt.T, o *gen.Tree) image.Image {
	switch t.N(12) {
	case 0:
		l := o.Layer(t.Rng, t.N(3))
		if t.B() {
			return &l
		}

		return l
	case 1:
		p := image.Pt(t.R(-9, 9), t.R(-9, 9))
		r := image.Rectangle{p, p.Add(image.Pt(t.R(1, o.MaxSize), t.R(1, o.MaxSize)))}
		k := o.Kinds[t.N(len(o.Kinds))]

		if k == gen.KUniform {
			k = gen.KNRGBA
		}

		i := gen.NewLeaf(t.Rng, k, r, o.Palette, o.AnyColours)

		switch t.N(4) {
		case 0:
			m := image.NewGray(r)
			gen.Fill(t.Rng, m, false)
			i = limage.MaskedImage{Image: i, Mask: m}
		case 1:
			i = limage.Text{Image: i, TextData: gen.RandText(t.Rng)}
		}

		return i
	}

	i := o.Image(t.Rng, t.N(4))

	if !o.NoStress && t.P(50) {
		i = o.Stress(t.Rng, i)
		t.Count("unusual_shapes", 1)
	}

	if t.P(4) {
		gen.Pointers(t.Rng, i)
	}

	if t.P(3) {
		gen.Move(i, image.Pt(t.R(-50, 50), t.R(-50, 50)))
	}

	if t.P(5) {
		return &i
	}

	return i
}
