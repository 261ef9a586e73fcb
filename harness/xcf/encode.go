package main

import (
	"fmt"
	"image"
	"image/color"
	"math"
	"reflect"
	"strings"

	"verif/gen"
	"verif/rt"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
)

type trip struct {
	t      *rt.T
	m      image.Image // the subject
	k      *target
	leaves int
	masks  int
	texts  int
	groups int
}

// compare compares a decoded tree with the original.
func (c *trip) compare(want, got limage.Image, path string, top bool) {
	t := c.t

	if len(want) != len(got) {
		t.Fail("%s has %d layers, want %d", path, len(got), len(want))
	}

	for n := range want {
		w, g := want[n], got[n]
		p := fmt.Sprintf("%s/%d", path, n)

		t.Eval(1)

		if w.Name != g.Name {
			t.Fail("%s is named %q, want %q", p, g.Name, w.Name)
		}

		if w.LayerBounds != g.LayerBounds && !(w.LayerBounds.Empty() && g.LayerBounds.Empty()) {
			t.Fail("%s is at %v, want %v", p, g.LayerBounds, w.LayerBounds)
		}

		if w.Invisible != g.Invisible || w.Transparency != g.Transparency {
			t.Fail("%s: hidden %v, transparency %d; want %v, %d", p, g.Invisible, g.Transparency, w.Invisible, w.Transparency)
		}

		m := gen.XCFMode(w.Mode)
		if top && n == len(want)-1 && m != limage.CompositeNormal && m != limage.CompositeDissolve {
			m = limage.CompositeNormal
		}

		if c.k.base == 0 && m != g.Mode {
			t.Fail("%s has mode %s, want %s (was %s)", p, g.Mode, m, w.Mode)
		}

		wi, wm, wt, _ := peel(w.Image)
		gi, gm, gt, _ := peel(g.Image)

		if s := sameMask(maskPart(wm, part(c.m, w)), gm); s != "" && !w.LayerBounds.Empty() {
			t.Fail("%s: %s", p, s)
		}

		if wm != nil {
			c.masks++
		}

		if len(wt) > 0 {
			c.texts++

			if a, b := wt.String(), gt.String(); a != b {
				t.Fail("%s has the text %q, want %q", p, b, a)
			}
		}

		if wg, ok := gen.GroupOf(wi); ok {
			gg, ok := gen.GroupOf(gi)
			if !ok {
				t.Fail("%s is a %T, want a group", p, gi)
			}

			c.groups++

			if w.LayerBounds.Empty() {
				continue
			}

			c.compare(wg, gg, p, false)

			continue
		}

		if _, ok := gen.GroupOf(gi); ok {
			t.Fail("%s is a group, want a %T", p, wi)
		}

		c.leaves++

		if w.LayerBounds.Empty() {
			t.Count("empty_layers", 1)

			continue
		}

		if wi.Bounds() != part(c.m, w) {
			t.Count("layers_unlike_their_picture", 1)
		}

		gb := gi.Bounds()
		if gb.Min != (image.Point{}) {
			t.Fail("%s has a picture at %v", p, gb)
		}

		if s := c.k.pixels(wi, part(c.m, w), gb.Size(), func(x, y int) color.NRGBA { return nrgba(gi.At(x, y)) }); s != "" {
			t.Fail("%s (a %T): %s", p, wi, s)
		}
	}
}

func (c *trip) count() {
	c.t.Count("leaf_pictures_compared", c.leaves)
	c.t.Count("groups", c.groups)
	c.t.Count("masks_compared", c.masks)
	c.t.Count("texts", c.texts)
	c.t.Count(fmt.Sprintf("images_of_base_type_%d", c.k.base), 1)
}

var c19 = &rt.Check{
	ID: "C19", Level: "exploration",
	Rule: "random layer trees (up to 4 layers per group and 3 levels, 15 kinds of leaf picture of up to 200 pixels a side, so up to 16 tiles, masks on leaves and groups, texts, every mode, offsets of either sign, whole image off the origin; RGB, grey and indexed), single layers and plain pictures, by value and by pointer, and a few files over 16 MiB, encoded and decoded; every property of every layer, every mask and every pixel compared with the original in the image's colour model. Non-trivial: every case; counted by hash of the tree.",
	N:    rt.Cases(9000, 200000), MinKeys: 5000,
	Run: func(t *rt.T) {
		if t.Idx < 3 {
			large(t)

			return
		}

		o := encodable(t)
		m := subject(t, o)
		t.Describe("%s", gen.DescribeImage(m))

		s := encode(t, m)
		got := decode(t, s.b, false)
		want := gen.Canon(m)
		c := trip{t: t, m: m, k: targetOf(m)}
		c.compare(want, got, "image", true)
		c.count()
		t.Count("bytes", len(s.b))
		t.Key(rt.HashS(gen.DescribeImage(m)))
		t.Sample("%s", gen.DescribeImage(m))

		if b := got.Bounds(); b != want.Bounds() {
			t.Fail("bounds are %v, want %v", b, want.Bounds())
		}

		if t.P(8) { // a second generation changes nothing more
			k := targetOf(got)
			if k.base != c.k.base {
				t.Fail("base type %d comes back with a colour model of base type %d", c.k.base, k.base)
			}

			got2 := decode(t, encode(t, got).b, false)
			d := trip{t: t, m: got, k: k}
			d.compare(got, got2, "second generation", true)
			t.Count("second_generations", 1)
		}
	},
}

// large makes files of more than 16 MiB.
func large(t *rt.T) {
	n := 2150
	rect := image.Rect(0, 0, n, n+10*t.Idx)

	var i image.Image

	noise := func(b []byte) {
		for k := range b {
			b[k] = t.U8()
		}
	}

	switch t.Idx {
	case 0:
		m := image.NewNRGBA(rect)
		noise(m.Pix)
		i = m
	case 1:
		rect.Max = rect.Max.Mul(2)
		m := image.NewGray(rect)
		noise(m.Pix)
		i = m
	default:
		rect.Max = rect.Max.Mul(2)

		var p color.Palette
		for k := 0; k < 256; k++ {
			p = append(p, lcolor.RGB{R: uint8(k), G: uint8(k * 7), B: uint8(k * 31)})
		}

		m := image.NewPaletted(rect, p)
		noise(m.Pix)
		i = m
	}

	small := image.NewNRGBA(image.Rect(0, 0, 3, 3))
	noise(small.Pix)

	img := limage.Image{{Name: "large", LayerBounds: rect, Image: i}, {Name: "below", LayerBounds: image.Rect(1, 1, 4, 4), Image: small}}

	s := encode(t, img)
	t.Describe("a file of %d bytes: %s", len(s.b), gen.DescribeImage(img))

	if len(s.b) < 16<<20 {
		t.Fail("the large file is small")
	}

	got := decode(t, s.b, false)

	if len(got) != 2 || got[0].Name != "large" || got[1].Name != "below" || got[0].LayerBounds != rect {
		t.Fail("the layers are %s", gen.DescribeImage(got))
	}

	k := targetOf(img)

	for c := 0; c < 200000; c++ {
		x, y := t.N(rect.Max.X), t.N(rect.Max.Y)
		if k.base == 2 && c == 3000 {
			break
		}

		if s := k.pixel(i.At(x, y), nrgba(got[0].Image.At(x, y))); s != "" {
			t.Fail("pixel (%d,%d) %s", x, y, s)
		}
	}

	if s := k.pixels(small, small.Rect, got[1].Image.Bounds().Size(), func(x, y int) color.NRGBA { return nrgba(got[1].Image.At(x, y)) }); s != "" {
		t.Fail("the layer below: %s", s)
	}

	t.Eval(1)
	t.Count("files_over_16_MiB", 1)
	t.Count("bytes", len(s.b))
	t.Key(rt.Hash(uint64(t.Idx), uint64(len(s.b))))
}

// --- C20 ----------------------------------------------------------------------

var markupRunes = []rune("abc XYZ 019\"\"\\\\\n\t\r<>&'()#é漢字\u00a0\u2028\U0001f600%;{}[]=/\u0301\u202e")

func randTextData(t *rt.T) limage.TextData {
	n := t.Pick(1, 1, 1, 2, 2, 3, 5)
	d := make(limage.TextData, n)

	for i := range d {
		d[i] = limage.TextDatum{
			ForeColor: lcolor.RGB{R: t.Edge8(), G: t.Edge8(), B: t.Edge8()},
			Size:      uint32(t.R(1, 500)),
			Font:      t.PickS("Sans", "DejaVu Sans Mono Bold", "Font \"quoted\" \\ & <co>'s", "Schriftart Größe", "Serif Italic,", "", "sans", "SANS", "Sans ", " Sans", "Sans Bold", "Sans 18", "Sansation", "San", "Ｓans"),
		}

		if t.P(3) {
			d[i].Size = uint32(t.Pick(18, 18, 0, 1, 17, 19, 24, 118, 180, 1<<16, 1<<22, 1<<22+18, math.MaxUint32))
		}

		if t.P(4) {
			d[i].ForeColor = textColour(t)
		}

		switch t.N(4) {
		case 0:
			d[i].BackColor = lcolor.RGB{R: t.Edge8(), G: t.Edge8(), B: t.Edge8()}
		case 1:
			d[i].BackColor = color.Alpha{}
		case 2:
			d[i].BackColor = textColour(t)
		}

		if n > 1 {
			d[i].LetterSpacing = uint32(t.Pick(0, 0, 1, t.N(1000), 1<<22, math.MaxUint32))
			d[i].Rise = uint32(t.Pick(0, 0, 1, t.N(1000), 1<<22, math.MaxUint32))
			d[i].Bold, d[i].Italic, d[i].Underline, d[i].Strikethrough = t.B(), t.B(), t.B(), t.B()
		}

		switch t.N(5) {
		case 0:
			d[i].Data = gen.TextString(t.Rng)
		case 1:
			d[i].Data = t.PickS("\\", "\"", "\\\"", "\"\\", "\\n", "\n", "&amp;", "</markup>", "<b>x</b>", "\")\n(text \"", "%s%d", " ", "  two  spaces  ", "\\\\n\n", "'", "\r\n", "]]>", "<!-- -->", "&#10;", "ü", strings.Repeat("long \\ \" <text> ", 1<<t.N(13)))
		default:
			k := t.Pick(0, 1, 2, 5, 12, 40)
			for ; k > 0; k-- {
				d[i].Data += string(markupRunes[t.N(len(markupRunes))])
			}

			if n == 1 && t.P(6) { // no markup, so any character
				d[i].Data += t.PickS("\x01", "\x1b[0m", "\x7f", "\u0085", "\ufffe", "\a\b\f\v", "\x1f")
			}
		}
	}

	return d
}

// textColour is a colour that eight bits hold, or none.
func textColour(t *rt.T) color.Color {
	a, b, c := t.Edge8(), t.Edge8(), t.Edge8()

	switch t.N(7) {
	case 0:
		return nil
	case 1:
		return color.NRGBA{a, b, c, 255}
	case 2:
		return color.RGBA{a, b, c, 255}
	case 3:
		return color.RGBA64{uint16(a) * 0x101, uint16(b) * 0x101, uint16(c) * 0x101, 0xffff}
	case 4:
		return color.Gray{a}
	case 5:
		return color.White
	}

	return color.Transparent
}

func stripText(s []limage.TextDatum, plain bool) []limage.TextDatum {
	r := make([]limage.TextDatum, len(s))

	for i, d := range s {
		if plain { // only these are kept
			d = limage.TextDatum{Data: d.Data, Font: d.Font, Size: d.Size, ForeColor: d.ForeColor}
		}

		r[i] = d
	}

	return r
}

var c20 = &rt.Check{
	ID: "C20", Level: "exploration",
	Rule: "images with text layers (1 to 5 pieces; texts of quotes, backslashes, line breaks, tabs, markup, escapes, control characters, non-ASCII, combining and direction marks; fonts with such characters; colours of every type and none; all styles), some masked, in groups, beside other layers, encoded and decoded, eagerly and deferred: characters with their styles, picture and mask compared. Non-trivial: texts with characters; counted by hash of the text.",
	N:    rt.Cases(60000, 1500000), MinKeys: 30000,
	Run: func(t *rt.T) {
		o := encodable(t)
		o.Kinds = []int{gen.KNRGBA, gen.KRGB, gen.KGray, gen.KGrayAlpha, gen.KPaletted}
		o.MaxSize = 5
		o.Texts = false
		o.MaxLayers = 2
		img := o.Image(t.Rng, t.N(2))

		if len(img) == 0 {
			return
		}

		var texts []limage.TextData

		gen.Walk(img, func(_ string, i image.Image) {
			g, ok := i.(limage.Image)
			if !ok {
				return
			}

			for n := range g {
				in := &g[n].Image

				if m, ok := (*in).(limage.MaskedImage); ok {
					if _, ok := m.Image.(limage.Image); ok {
						continue
					}

					d := randTextData(t)
					texts = append(texts, d)
					m.Image = limage.Text{Image: m.Image, TextData: d}
					*in = m
				} else if _, ok := (*in).(limage.Image); !ok && !t.P(4) {
					d := randTextData(t)
					texts = append(texts, d)
					x := limage.Text{Image: *in, TextData: d}
					*in = x

					if t.P(3) {
						*in = &x
					}
				}
			}
		})

		t.Describe("%s with %s", gen.DescribeImage(img), describeTexts(texts))
		s := encode(t, img)

		if t.P(10) {
			t.Sample("%s", describeTexts(texts))
		}

		for _, deferred := range []bool{false, true} {
			got := decode(t, s.b, deferred)
			c := trip{t: t, m: img, k: targetOf(img)}
			c.compare(gen.Canon(img), got, "image", true)
			texts := compareTexts(t, img, got)
			c.count()
			t.Count("texts_compared", texts)
		}
	},
}

func describeTexts(ts []limage.TextData) string {
	s := ""

	for _, d := range ts {
		s += fmt.Sprintf("%+v ", []limage.TextDatum(d))
	}

	return s
}

func compareTexts(t *rt.T, want, got limage.Image) (n int) {
	for i := range want {
		wi, _, wt, is := peel(want[i].Image)
		gi, _, gt, isToo := peel(got[i].Image)

		if g, ok := gen.GroupOf(wi); ok {
			h, _ := gen.GroupOf(gi)
			n += compareTexts(t, g, h)

			continue
		}

		if is != isToo {
			t.Fail("layer %q is a text: %v, want %v", want[i].Name, isToo, is)
		}

		if !is {
			continue
		}

		n++

		a, b := stripText(gen.StyledRunes(wt), len(wt) == 1), stripText(gen.StyledRunes(gt), len(wt) == 1)

		t.Eval(1)
		t.Count("characters_compared", len(a))

		if len(a) > 0 {
			t.Key(rt.HashS(fmt.Sprint(a)))
		}

		if len(a) != len(b) {
			t.Fail("the text %q comes back as %q", wt.String(), gt.String())
		}

		for k := range a {
			if !reflect.DeepEqual(a[k], b[k]) {
				t.Fail("character %d is %+v, want %+v", k, b[k], a[k])
			}
		}
	}

	return n
}

// --- C21 ----------------------------------------------------------------------

func compareDoc(t *rt.T, m image.Image, k *target, f *gen.XFile, want limage.Image, got []*gen.XLayer, at image.Point, path string) (leaves int) {
	if len(want) != len(got) {
		t.Fail("%s has %d layers, want %d", path, len(got), len(want))
	}

	for n, w := range want {
		g := got[n]
		p := fmt.Sprintf("%s/%d", path, n)
		b := w.LayerBounds.Add(at)

		t.Eval(1)

		if g.Name != w.Name {
			t.Fail("%s is named %q, want %q", p, g.Name, w.Name)
		}

		if r := image.Rect(g.X, g.Y, g.X+g.W, g.Y+g.H); r != b {
			t.Fail("%s is at %v, want %v", p, r, b)
		}

		if g.Hidden != w.Invisible || g.Opacity != 255-w.Transparency {
			t.Fail("%s: hidden %v, opacity %d; want %v, %d", p, g.Hidden, g.Opacity, w.Invisible, 255-w.Transparency)
		}

		if mode := gen.XCFModes[g.Mode]; k.base == 0 && mode != gen.XCFMode(w.Mode) {
			t.Fail("%s has mode %d (%s), want %s", p, g.Mode, mode, w.Mode)
		}

		wi, wm, wt, is := peel(w.Image)

		var gm *image.Gray
		if g.Mask != nil {
			gm = &image.Gray{Pix: g.Mask, Stride: g.W, Rect: image.Rect(0, 0, g.W, g.H)}
		}

		if s := sameMask(maskPart(wm, part(m, w)), gm); s != "" {
			t.Fail("%s: %s", p, s)
		}

		if is != (g.Text != nil) {
			t.Fail("%s has a text: %v, want %v", p, g.Text != nil, is)
		}

		if g.Text != nil {
			if g.Text.String != wt.String() {
				t.Fail("%s has the text %q, want %q; stored as %q", p, g.Text.String, wt.String(), g.Text.Raw)
			}

			t.Count("texts", 1)
		}

		wg, group := gen.GroupOf(wi)

		if group != g.Group {
			t.Fail("%s is a group: %v, want %v", p, g.Group, group)
		}

		if group {
			leaves += compareDoc(t, m, k, f, wg, g.Kids, b.Min, p)

			continue
		}

		leaves++

		if s := k.pixels(wi, part(m, w), image.Pt(g.W, g.H), func(x, y int) color.NRGBA { return f.At(g, x, y) }); s != "" {
			t.Fail("%s (a %T): %s", p, wi, s)
		}
	}

	return leaves
}

var c21 = &rt.Check{
	ID: "C21", Level: "exploration",
	Rule: "what Encode wrote for the subjects of C19 is read by a strict XCF reader of the harness's own, which checks header, property and pointer lists, sizes, run lengths, strings, item paths, parasites and markup, and that structures neither overlap nor leave bytes over; the recorded positioned writes are checked for holes and for bytes written differently twice; layers, masks, texts and pixels found are compared with the original. Non-trivial: every case; counted by hash of the file.",
	N:    rt.Cases(9000, 200000), MinKeys: 5000,
	Run: func(t *rt.T) {
		o := encodable(t)
		m := subject(t, o)
		t.Describe("%s", gen.DescribeImage(m))

		s := encode(t, m)

		for _, c := range s.conflicts {
			t.Fail("%s", c)
		}

		for n, w := range s.written {
			if !w {
				t.Fail("byte %d of %d is never written", n, len(s.b))
			}
		}

		d, err := gen.ReadXCF(s.b)
		if err != nil {
			t.Fail("%v", err)
		}

		k := targetOf(m)

		if sz := m.Bounds().Size(); d.File.W != sz.X || d.File.H != sz.Y {
			t.Fail("the canvas is %dx%d, the image %v", d.File.W, d.File.H, sz)
		}

		if d.File.Base != k.base {
			t.Fail("the base type is %d, want %d", d.File.Base, k.base)
		}

		if k.base == 2 {
			if len(d.File.Palette) != len(k.palette) {
				t.Fail("a palette of %d, want %d", len(d.File.Palette), len(k.palette))
			}

			for n, c := range d.File.Palette {
				if w := k.palette[n]; !near8(w.R, c.R) || !near8(w.G, c.G) || !near8(w.B, c.B) {
					t.Fail("entry %d of the palette is %v, want %v", n, c, w)
				}
			}
		}

		n := compareDoc(t, m, k, &d.File, gen.Canon(m), d.File.Layers, image.Point{}, "image")

		t.Count("leaf_pictures_compared", n)
		t.Count("layers", len(d.Layers))
		t.Count("bytes_accounted_for", len(s.b))
		t.Count("positioned_writes", s.calls)
		t.Count(fmt.Sprintf("files_of_base_type_%d", k.base), 1)
		t.Key(rt.HashB(s.b))
		t.Sample("%s", gen.DescribeImage(m))
	},
}
