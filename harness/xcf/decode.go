package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"io"
	"math"
	"reflect"

	"verif/gen"
	"verif/rt"

	"vimagination.zapto.org/limage"
)

// --- C22 ----------------------------------------------------------------------

type foreign struct {
	t       *rt.T
	f       *gen.XFile
	canvas  image.Rectangle
	leaves  int
	clipped int
	masks   int
	texts   int
	groups  int
}

func (c *foreign) compare(want []*gen.XLayer, got limage.Image, at image.Point, path string, top bool) {
	t := c.t

	if len(want) != len(got) {
		t.Fail("%s has %d layers, want %d", path, len(got), len(want))
	}

	for n, w := range want {
		g := got[n]
		p := fmt.Sprintf("%s/%d", path, n)

		t.Eval(1)

		if w.Name != g.Name {
			t.Fail("%s is named %q, want %q", p, g.Name, w.Name)
		}

		if g.Invisible != w.Hidden {
			t.Fail("%s: hidden %v, want %v", p, g.Invisible, w.Hidden)
		}

		if g.Transparency != 255-w.Opacity {
			t.Fail("%s has transparency %d for opacity %d", p, g.Transparency, w.Opacity)
		}

		m := gen.XCFModes[w.Mode]
		if top && n == len(want)-1 && m != limage.CompositeNormal && m != limage.CompositeDissolve {
			m = limage.CompositeNormal
		}

		if c.f.Base == 0 || w.Mode == 0 || w.Mode == 2 || w.Mode == 28 {
			if m != g.Mode {
				t.Fail("%s has mode %s for %d, want %s", p, g.Mode, w.Mode, m)
			}
		}

		full := image.Rect(w.X, w.Y, w.X+w.W, w.Y+w.H)
		part := full.Intersect(c.canvas)
		box := g.LayerBounds.Add(at)

		if part.Empty() != box.Empty() || !part.Empty() && box != part {
			t.Fail("%s, at %v on a canvas of %v, is at %v, want %v", p, full, c.canvas, box, part)
		}

		if part != full {
			c.clipped++
		}

		in, mask, text, isText := peel(g.Image)

		if in == nil {
			t.Fail("%s has no picture", p)
		}

		if (mask != nil) != (w.Mask != nil) {
			t.Fail("%s has a mask: %v, want %v", p, mask != nil, w.Mask != nil)
		}

		if mask != nil {
			c.masks++

			if !part.Empty() && mask.Rect != (image.Rectangle{Max: part.Size()}) {
				t.Fail("%s has a mask at %v in a layer at %v", p, mask.Rect, g.LayerBounds)
			}

			for y := part.Min.Y; y < part.Max.Y; y++ {
				for x := part.Min.X; x < part.Max.X; x++ {
					if a, b := mask.GrayAt(x-part.Min.X, y-part.Min.Y).Y, w.Mask[(y-w.Y)*w.W+x-w.X]; a != b {
						t.Fail("%s: the mask at (%d,%d) of the canvas is %d, want %d", p, x, y, a, b)
					}
				}
			}
		}

		if isText != (w.Text != nil) {
			t.Fail("%s is a text: %v, want %v", p, isText, w.Text != nil)
		}

		if isText {
			c.texts++

			a, b := gen.StyledRunes(w.Text.Data), gen.StyledRunes(text)
			if !reflect.DeepEqual(a, b) {
				t.Fail("%s: %q gives %+v, want %+v", p, w.Text.Raw, text, w.Text.Data)
			}
		}

		if w.Group {
			gg, ok := in.(limage.Image)
			if !ok {
				t.Fail("%s is a %T, want a group", p, in)
			}

			c.groups++

			if part.Empty() {
				c.hollow(w.Kids, gg, p)
			} else {
				c.compare(w.Kids, gg, part.Min, p, false)
			}

			continue
		}

		c.leaves++

		if !part.Empty() && in.Bounds() != (image.Rectangle{Max: part.Size()}) {
			t.Fail("%s has a picture at %v in a layer at %v", p, in.Bounds(), g.LayerBounds)
		}

		for y := part.Min.Y; y < part.Max.Y; y++ {
			for x := part.Min.X; x < part.Max.X; x++ {
				a, b := nrgba(in.At(x-part.Min.X, y-part.Min.Y)), c.f.At(w, x-w.X, y-w.Y)
				if a != b {
					t.Fail("%s: pixel (%d,%d) of the canvas is %v, want %v", p, x, y, a, b)
				}
			}
		}
	}
}

// hollow checks the layers of a group off the canvas.
func (c *foreign) hollow(want []*gen.XLayer, got limage.Image, path string) {
	if len(want) != len(got) {
		c.t.Fail("%s has %d layers, want %d", path, len(got), len(want))
	}

	for n, w := range want {
		if g := got[n]; g.Name != w.Name || !g.LayerBounds.Empty() || g.Invisible != w.Hidden || g.Transparency != 255-w.Opacity {
			c.t.Fail("%s/%d is %s", path, n, gen.DescribeImage(g))
		}
	}
}

func level(b uint8) float64 { return float64(b) / 255 }

// fold flattens a file by its description (Normal and RGB or grey only).
func (c *foreign) fold(ls []*gen.XLayer, x, y int) gen.Straight {
	var s gen.Straight

	for i := len(ls) - 1; i >= 0; i-- {
		l := ls[i]
		if l.Hidden || !image.Pt(x, y).In(image.Rect(l.X, l.Y, l.X+l.W, l.Y+l.H)) {
			continue
		}

		var p gen.Straight

		if l.Group {
			p = c.fold(l.Kids, x, y)
		} else {
			n := c.f.At(l, x-l.X, y-l.Y)
			p = gen.Straight{R: level(n.R), G: level(n.G), B: level(n.B), A: level(n.A)}
		}

		if l.Mask != nil {
			p.A *= level(l.Mask[(y-l.Y)*l.W+x-l.X])
		}

		p.A *= level(l.Opacity)
		s = gen.Blend(limage.CompositeNormal, s, p)
	}

	return s
}

var c22 = &rt.Check{
	ID: "C22", Level: "exploration",
	Rule: "XCF files of versions 0 to 13 written by the harness's own generator (32 and 64-bit pointers, structures in any order with gaps, run-length encoded in many ways or uncompressed pixel by pixel, RGB, grey and indexed, with and without alpha, up to 3 levels of groups, masks on layers and groups, texts plain and marked up, every mode, every property of image, layer and channel in any order, smaller levels, saved channels; layers inside, across and off the canvas), decoded eagerly and deferred; every property, mask, text and pixel compared with the description; canvases of Normal layers flattened and compared with a floating-point fold. Non-trivial: every file; counted by hash of the file.",
	N:    rt.Cases(60000, 1500000), MinKeys: 40000,
	Run: func(t *rt.T) {
		o := &gen.XForeign{R: t.Rng, Version: -1, Base: -1, Depth: t.N(4), Texts: t.B(), Inside: t.P(5), Repeat: t.P(25)}
		if o.Big = t.P(120); o.Big {
			o.Depth, o.Repeat = 0, false
		}

		normal := t.P(5)

		if normal {
			o.Modes = []int{0, 28}
			o.Base = t.N(2)
			o.Texts = false
		}

		f := o.Make()
		f.Far = t.P(10)
		b, props := f.WriteProps(t.Rng, t.P(6))
		t.Describe("%s", f.Describe())

		var src io.ReaderAt = bytes.NewReader(b)

		if f.Gap > 0 {
			s := &gen.Sparse{B: b, GapAt: f.GapAt, Gap: f.Gap}
			src = s

			t.Count("files_with_a_hole", 1)

			if f.Gap >= 1<<32 {
				t.Count("files_with_pointers_beyond_4GiB", 1)
			} else if f.Gap >= 1<<31-1<<20 {
				t.Count("files_with_pointers_about_and_beyond_2GiB", 1)
			}

			defer func() { t.Count("reads_behind_holes", int(s.Beyond.Load())) }()
		}

		deferred := t.P(3)

		img, err := tryDecodeFrom(t, src, deferred)
		if err != nil {
			t.Fail("decoding (deferred: %v) fails: %v", deferred, err)
		}

		c := foreign{t: t, f: f, canvas: image.Rect(0, 0, f.W, f.H)}
		c.compare(f.Layers, img, image.Point{}, "image", true)

		if normal {
			n := 0

			gen.Points(t.Rng, c.canvas, 1500, func(x, y int) {
				if !image.Pt(x, y).In(c.canvas) {
					return
				}

				n++

				got, want := img.At(x, y), c.fold(f.Layers, x, y)
				if e := gen.PremulDiff(got, want); e > 60 {
					t.Fail("flattened pixel (%d,%d) is %v, want %v", x, y, gen.Pre16(got), want.Premul())
				}
			})
			t.Count("flattened_pixels_compared", n)
		}

		t.Count("leaf_pictures_compared", c.leaves)
		t.Count("layers_clipped", c.clipped)
		t.Count("masks_compared", c.masks)
		t.Count("texts_compared", c.texts)
		t.Count("groups", c.groups)
		t.Count(fmt.Sprintf("files_of_version_%d", f.Version), 1)
		t.Count(fmt.Sprintf("files_of_base_type_%d", f.Base), 1)

		for _, p := range props {
			t.Count("property_"+p, 1)
		}

		t.Key(rt.HashB(b))
		t.Sample("%s", f.Describe())
	},
}

// --- C23 ----------------------------------------------------------------------

type pair struct {
	path   string
	a, b   image.Image
	random bool // dissolves
}

// pairs walks two trees at once and compares their structure.
func pairs(t *rt.T, a, b image.Image, path string, out *[]pair) {
	if a == nil || b == nil {
		if a != nil || b != nil {
			t.Fail("%s: %T deferred, %T eager", path, b, a)
		}

		return
	}

	*out = append(*out, pair{path, a, b, gen.Dissolves(a)})

	switch x := a.(type) {
	case limage.Image:
		y, ok := b.(limage.Image)
		if !ok {
			t.Fail("%s is a %T deferred, a %T eager", path, b, a)
		}

		if len(x) != len(y) {
			t.Fail("%s has %d layers deferred, %d eager", path, len(y), len(x))
		}

		for n := range x {
			l, m := x[n], y[n]
			if l.Name != m.Name || l.LayerBounds != m.LayerBounds || l.Mode != m.Mode || l.Invisible != m.Invisible || l.Transparency != m.Transparency {
				t.Fail("%s/%d is %s deferred, %s eager", path, n, gen.DescribeImage(m), gen.DescribeImage(l))
			}

			pairs(t, l.Image, m.Image, fmt.Sprintf("%s/%d", path, n), out)
		}
	case limage.MaskedImage:
		y, ok := b.(limage.MaskedImage)
		if !ok {
			t.Fail("%s is a %T deferred, a %T eager", path, b, a)
		}

		if s := sameMask(x.Mask, y.Mask); s != "" {
			t.Fail("%s, deferred: %s", path, s)
		}

		pairs(t, x.Image, y.Image, path+"/masked", out)
	case limage.Text:
		y, ok := b.(limage.Text)
		if !ok {
			t.Fail("%s is a %T deferred, a %T eager", path, b, a)
		}

		if !reflect.DeepEqual(x.TextData, y.TextData) {
			t.Fail("%s has the text %+v deferred, %+v eager", path, y.TextData, x.TextData)
		}

		pairs(t, x.Image, y.Image, path+"/text", out)
	default:
		switch b.(type) {
		case limage.Image, limage.Text, limage.MaskedImage:
			t.Fail("%s is a %T deferred, a %T eager", path, b, a)
		}
	}
}

// samePixel compares what two images show at a point, and whether they panic.
func at(i image.Image, x, y int) (c color.Color, p interface{}) {
	defer func() { p = recover() }()

	return i.At(x, y), nil
}

func equalTrees(t *rt.T, eager, deferred limage.Image) {
	var ps []pair

	pairs(t, eager, deferred, "image", &ps)

	if eager == nil {
		return
	}

	t.Eval(1)

	for _, p := range ps {
		if a, b := p.a.Bounds(), p.b.Bounds(); a != b {
			t.Fail("%s has bounds %v deferred, %v eager", p.path, b, a)
		}

		if a, b := p.a.ColorModel(), p.b.ColorModel(); !reflect.DeepEqual(a, b) {
			t.Fail("%s, a %T, has colour model %v deferred; eager, a %T, %v", p.path, p.b, b, p.a, a)
		}

		if _, ok := p.a.(limage.Image); !ok {
			t.Count("kind_"+fmt.Sprintf("%T", p.b), 1)
		}
	}

	// the images in turn, their points in random order, so that tiles come and go
	n := 300 * len(ps)
	if n > 6000 {
		n = 6000
	}

	var pt image.Point

	for k := 0; k < n; k++ {
		p := ps[t.N(len(ps))]
		b := p.a.Bounds()

		switch t.N(10) {
		case 0: // outside
			pt = image.Pt(t.R(b.Min.X-3, b.Max.X+3), t.R(b.Min.Y-3, b.Max.Y+3))
			if t.P(5) {
				pt = image.Pt(t.Pick(-64, -1, b.Max.X, 64, 1<<20), t.Pick(-64, -1, b.Max.Y, 64, -1<<20))
			}
		case 1: // again, or in another image
		default:
			pt = image.Pt(t.R(b.Min.X, b.Max.X-1), t.R(b.Min.Y, b.Max.Y-1))
		}

		if p.random {
			continue
		}

		c, e1 := at(p.a, pt.X, pt.Y)
		d, e2 := at(p.b, pt.X, pt.Y)

		if e1 != nil || e2 != nil {
			t.Fail("pixel %v of %s: panic %v deferred, %v eager", pt, p.path, e2, e1)
		}

		if !gen.SameColour(c, d) {
			t.Fail("pixel %v of %s, at %v, is %v (%T) deferred, %v (%T) eager", pt, p.path, b, d, p.b, c, p.a)
		}

		if pt.In(b) {
			t.Count("pixels_compared", 1)
		} else {
			t.Count("pixels_outside_compared", 1)
		}
	}

	// every pixel once, unless there are many
	for _, p := range ps {
		switch p.a.(type) {
		case limage.Image, limage.MaskedImage, limage.Text:
			continue
		}

		b := p.a.Bounds()
		if b.Dx()*b.Dy() > 5000 && !t.P(10) || b.Dx()*b.Dy() > 1000000 {
			continue
		}

		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				c, d := p.a.At(x, y), p.b.At(x, y)
				if !gen.SameColour(c, d) {
					t.Fail("pixel (%d,%d) of %s, at %v, is %v (%T) deferred, %v (%T) eager", x, y, p.path, b, d, p.b, c, p.a)
				}
			}
		}

		t.Count("pixels_compared", b.Dx()*b.Dy())
	}
}

// both decodes in both ways.
func both(t *rt.T, b []byte) { bothFrom(t, b, bytes.NewReader(b)) }

func bothFrom(t *rt.T, b []byte, r io.ReaderAt) {
	e, err1 := tryDecodeFrom(t, r, false)
	d, err2 := tryDecodeFrom(t, r, true)

	if (err1 == nil) != (err2 == nil) {
		t.Fail("decoding says: %v; deferred: %v", err1, err2)
	}

	if err1 != nil {
		t.Count("refused", 1)

		return
	}

	t.Count("decoded", 1)
	equalTrees(t, e, d)
	t.Key(rt.HashB(b))
}

var c23 = &rt.Check{
	ID: "C23", Level: "exploration",
	Rule: "files of C22's generator (with images of up to 200 pixels a side, so several tiles), files that Encode wrote, and both with bytes changed within tiles and elsewhere, decoded with Decode and DecodeCompressed: success, tree, bounds and colour models compared, then pixels of all images of the tree interleaved in random order, inside and outside the bounds, and all pixels in order. Non-trivial: files that decode; counted by hash of the file.",
	N:    rt.Cases(16000, 300000), MinKeys: 30000, MemLimit: 12 << 30,
	Run: func(t *rt.T) {
		var b []byte

		switch t.N(4) {
		case 0:
			m := subject(t, encodable(t))
			t.Describe("%s", gen.DescribeImage(m))
			b = encode(t, m).b
		default:
			o := &gen.XForeign{R: t.Rng, Version: -1, Base: -1, Depth: t.N(3), Texts: t.P(3), OnlyRLE: !t.P(6), Small: t.P(3), Repeat: t.P(15)}
			if o.Big = t.P(120); o.Big {
				o.Depth, o.Repeat = 0, false
			}

			f := o.Make()
			f.Far = t.P(10)
			b = f.Write(t.Rng, t.B())

			t.Describe("%s", f.Describe())

			if f.Gap > 0 {
				t.Count("files_with_a_hole", 1)
				bothFrom(t, b, &gen.Sparse{B: b, GapAt: f.GapAt, Gap: f.Gap})

				return
			}
		}

		both(t, b)

		d := gen.TileBytes(b)

		for k := 0; k < 6; k++ {
			c := append([]byte(nil), b...)
			what := ""

			for j := t.R(1, 2); j > 0; j-- {
				n := t.N(len(c))
				if len(d) > 0 && !t.P(4) {
					n = d[t.N(len(d))]
				}

				v := t.U8()
				if t.B() {
					v = uint8(t.Pick(0, 1, 62, 63, 64, 126, 127, 128, 129, 254, 255))
				}

				what += fmt.Sprintf(" byte %d is %#x, was %#x;", n, v, c[n])
				c[n] = v
			}

			desc := t.Desc()
			t.Describe("%s changed: %s", what, desc)
			t.Count("changed_files", 1)
			both(t, c)
			t.Describe("%s", desc)
		}
	},
}

var _ = math.Pi
