package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"math"

	"verif/gen"
	"verif/rt"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/ora"
)

// encodable makes a tree for encoders.
func encodable(t *rt.T) *gen.Tree {
	o := gen.DefaultTree(t.Rng)
	o.Empty = false
	o.Overhang = true

	if t.P(3) {
		o.NoDissolve = true // random in groups with a mask, which are stored flat
	} else {
		o.Misfit = false
		o.GroupMasks = false
		ks := o.Kinds[:0]

		for _, k := range o.Kinds {
			if k != gen.KUniform { // has no size
				ks = append(ks, k)
			}
		}

		o.Kinds = ks
	}

	if t.P(6) {
		o.MaxSize = 70
		o.MaxLayers = 2
	}

	return o
}

// sized is a kind of picture that has a size.
func sized(t *rt.T, o *gen.Tree) int {
	for {
		if k := o.Kinds[t.N(len(o.Kinds))]; k != gen.KUniform {
			return k
		}
	}
}

// subject makes something to encode: a layered image or, less often, a single
// layer or a plain picture, perhaps by pointer.
func subject(t *rt.T, o *gen.Tree) image.Image {
	switch t.N(12) {
	case 0:
		l := o.Layer(t.Rng, t.N(3))
		if t.B() {
			return &l
		}

		return l
	case 1:
		p := image.Pt(t.R(-9, 9), t.R(-9, 9))
		r := image.Rectangle{p, p.Add(image.Pt(t.R(1, o.MaxSize), t.R(1, o.MaxSize)))}
		i := gen.NewLeaf(t.Rng, sized(t, o), r, o.Palette, o.AnyColours)

		switch t.N(4) {
		case 0:
			m := image.NewGray(r)
			gen.Fill(t.Rng, m, false)
			i = limage.MaskedImage{Image: i, Mask: m}
		case 1:
			i = limage.Text{Image: i, TextData: gen.RandText(t.Rng)}
		}

		return i
	}

	i := o.Image(t.Rng, t.N(4))

	if !o.NoStress && t.P(50) {
		i = o.Stress(t.Rng, i)
		t.Count("unusual_shapes", 1)
	}

	if t.P(4) {
		gen.Pointers(t.Rng, i)
	}

	if t.P(3) {
		gen.Move(i, image.Pt(t.R(-50, 50), t.R(-50, 50)))
	}

	if t.P(5) {
		return &i
	}

	return i
}

func encode(t *rt.T, m image.Image) []byte {
	var b bytes.Buffer

	t.Guard("Encode", func() {
		if err := ora.Encode(&b, m); err != nil {
			t.Fail("Encode fails: %v", err)
		}
	})

	return b.Bytes()
}

func decode(t *rt.T, b []byte) limage.Image {
	zr, err := gen.OpenZip(b)
	if err != nil {
		t.Fail("not a zip archive: %v", err)
	}

	var i limage.Image

	t.Guard("Decode", func() {
		i, err = ora.Decode(zr)
	})

	if err != nil {
		t.Fail("Decode fails: %v", err)
	}

	return i
}

func key(t *rt.T, m image.Image) {
	t.Key(rt.HashS(gen.DescribeImage(m)))
}

// fitting tells whether every group has all its layers within its bounds, so
// that none of them is beyond those of the image.
func fitting(i limage.Image) bool {
	for _, l := range i {
		if g, ok := gen.GroupOf(l.Image); ok {
			r := image.Rectangle{Max: l.LayerBounds.Size()}

			for _, k := range g {
				if !k.LayerBounds.In(r) {
					return false
				}
			}

			if !fitting(g) {
				return false
			}
		}
	}

	return true
}

// clippedAway tells whether a layer lay wholly off the canvas: what is left
// of it has no pixels, for which there is no PNG.
func clippedAway(i limage.Image) bool {
	for _, l := range i {
		if g, ok := gen.GroupOf(l.Image); ok {
			if clippedAway(g) {
				return true
			}
		} else if l.LayerBounds.Empty() {
			return true
		}
	}

	return false
}

var c13 = &rt.Check{
	ID: "C13", Level: "exploration",
	Rule: "random layer trees (up to 4 layers per group and 3 levels, 14 kinds of leaf picture, masks, texts, every mode, names with markup and non-ASCII, offsets of either sign, groups whose layers reach over their edges, whole image off the origin), single layers and plain pictures, by value and by pointer, encoded and decoded; every property of every layer and every pixel compared with the original, pictures as a direct PNG round trip stores them. Non-trivial: every case; counted by hash of the tree.",
	N:    rt.Cases(12000, 250000), MinKeys: 5000,
	Run: func(t *rt.T) {
		o := encodable(t)
		m := subject(t, o)
		t.Describe("%s", gen.DescribeImage(m))

		b := encode(t, m)
		got := decode(t, b)
		want := gen.CanonOra(m)

		n := gen.CompareOra(t, want, got, "the image:")
		t.Count("leaf_pictures_compared", n)
		t.Count("bytes", len(b))

		if gb, wb := got.Bounds(), want.Bounds(); !gb.In(wb) || gb.Min != wb.Min && fitting(want) {
			t.Fail("bounds are %v, want %v", gb, wb)
		}

		key(t, m)
		t.Sample("%s", gen.DescribeImage(m))

		if t.P(8) && !clippedAway(got) { // a second generation changes nothing more
			b2 := encode(t, got)
			got2 := decode(t, b2)
			gen.CompareOra(t, got, got2, "the second generation:")
			t.Count("second_generations", 1)
		}
	},
}

// --- C14 ----------------------------------------------------------------------

func compareDoc(t *rt.T, d *gen.OraDoc, want limage.Image, got []*gen.OraNode, path string) (leaves int) {
	if len(want) != len(got) {
		t.Fail("%s has %d elements, want %d", path, len(got), len(want))
	}

	for n, w := range want {
		g := got[n]
		p := fmt.Sprintf("%s element %d", path, n)
		wg, group := gen.GroupOf(w.Image)

		t.Eval(1)

		if g.Stack != group {
			t.Fail("%s: stack %v, want %v", p, g.Stack, group)
		}

		if g.Name != w.Name {
			t.Fail("%s is named %q, want %q", p, g.Name, w.Name)
		}

		if g.X != w.LayerBounds.Min.X || g.Y != w.LayerBounds.Min.Y {
			t.Fail("%s is at (%d,%d), want %v", p, g.X, g.Y, w.LayerBounds.Min)
		}

		if math.Abs(g.Opacity-float64(255-w.Transparency)/255) > 0.4/255 {
			t.Fail("%s has opacity %v, transparency is %d", p, g.Opacity, w.Transparency)
		}

		if g.Hidden != w.Invisible {
			t.Fail("%s: hidden %v, want %v", p, g.Hidden, w.Invisible)
		}

		if m := gen.OraOps[g.Op]; m != gen.OraMode(w.Mode) {
			t.Fail("%s has composite-op %q for mode %s", p, g.Op, w.Mode)
		}

		if group {
			leaves += compareDoc(t, d, wg, g.Kids, p)

			continue
		}

		leaves++

		pic, err := png.Decode(bytes.NewReader(d.Files[g.Src]))
		if err != nil {
			t.Fail("%s: %q is no PNG: %v", p, g.Src, err)
		}

		if s := gen.SameStored(t, w, image.Rectangle{Max: w.LayerBounds.Size()}, pic); s != "" {
			t.Fail("%s, %q (a %T): %s", p, g.Src, w.Image, s)
		}
	}

	return leaves
}

var c14 = &rt.Check{
	ID: "C14", Level: "exploration",
	Rule: "what Encode wrote for the subjects of C13 is read by a strict zip, XML and PNG reader of the harness's own: first entry, compression of the mimetype, required entries, no duplicates, canvas, one root stack, known elements and attributes with legal values and no duplicates, sources existing and distinct, and each element's name, offset, opacity, visibility, operation and picture. Non-trivial: every case; counted by hash of the tree.",
	N:    rt.Cases(12000, 250000), MinKeys: 5000,
	Run: func(t *rt.T) {
		o := encodable(t)
		m := subject(t, o)
		t.Describe("%s", gen.DescribeImage(m))

		b := encode(t, m)

		d, err := gen.ReadOra(b)
		if err != nil {
			t.Fail("%v", err)
		}

		if s := m.Bounds().Size(); d.W != s.X || d.H != s.Y {
			t.Fail("canvas is %dx%d, the image %v", d.W, d.H, s)
		}

		n := compareDoc(t, d, gen.CanonOra(m), d.Root, "stack.xml:")

		pngs := 0

		for _, f := range d.Order {
			switch f {
			case "mimetype", "stack.xml", "mergedimage.png", "Thumbnails/thumbnail.png":
			default:
				pngs++
			}
		}

		if pngs != n {
			t.Fail("%d entries for %d leaf layers: %q", pngs, n, d.Order)
		}

		for _, f := range []string{"mergedimage.png", "Thumbnails/thumbnail.png"} {
			if _, err := png.DecodeConfig(bytes.NewReader(d.Files[f])); err != nil {
				t.Fail("%s is no PNG: %v", f, err)
			}
		}

		t.Count("entries", len(d.Order))
		t.Count("elements_of_leaves", n)
		key(t, m)
		t.Sample("%s\n%s", gen.DescribeImage(m), d.Files["stack.xml"])
	},
}

// --- C15 ----------------------------------------------------------------------

func side(t *rt.T) int {
	switch t.N(6) {
	case 0:
		return t.R(1, 3)
	case 1:
		return t.R(250, 262)
	case 2:
		return t.Pick(255, 256, 257, 511, 512, 513, 768)
	case 3:
		return t.R(1, 300)
	case 4:
		return t.R(257, 700)
	}

	return t.R(1, 60)
}

var c15 = &rt.Check{
	ID: "C15", Level: "exploration",
	Rule: "layered images (without random Dissolve), single layers and plain pictures with canvases of 1 to 2600 pixels a side, many around 256, elongated ones and ones off the origin, encoded; mergedimage.png compared in every pixel with the flattened image as PNG stores it, the thumbnail's size with the aspect ratio and every thumbnail pixel with the range of the pixels it stands for. Non-trivial: every case; counted by hash of size and tree.",
	N:    rt.Cases(900, 25000), MinKeys: 500,
	Run: func(t *rt.T) {
		o := encodable(t)
		o.Modes = o.Modes[:0]

		for i := 0; i < gen.NModes; i++ {
			if m := limage.Composite(i); m != limage.CompositeDissolve {
				o.Modes = append(o.Modes, m)
			}
		}

		w, h := side(t), side(t)
		if t.P(12) {
			w, h = t.R(1, 4), t.R(800, 2600)
			if t.B() {
				w, h = h, w
			}
		}

		if w*h > 400*400 && !t.P(3) { // keep most of them cheap
			h = 160000/w + 1
		}

		var m image.Image

		switch t.N(6) {
		case 0: // plain
			p := image.Pt(t.R(-9, 9), t.R(-9, 9))
			m = gen.NewLeaf(t.Rng, sized(t, o), image.Rectangle{p, p.Add(image.Pt(w, h))}, o.Palette, false)
		case 1:
			l := o.Layer(t.Rng, 0)
			l.LayerBounds.Max = l.LayerBounds.Min.Add(image.Pt(w, h))
			l.Image = gen.NewLeaf(t.Rng, o.Kinds[t.N(len(o.Kinds))], image.Rect(0, 0, w, h), o.Palette, false)
			m = l
		default:
			i := o.Image(t.Rng, t.N(3))

			// layers in two opposite corners make the canvas
			a := limage.Layer{Name: "a", LayerBounds: image.Rect(0, 0, 1, 1), Image: gen.NewLeaf(t.Rng, gen.KNRGBA, image.Rect(0, 0, 1, 1), nil, false)}
			b := a
			a.LayerBounds = a.LayerBounds.Add(i.Bounds().Min)
			b.LayerBounds = b.LayerBounds.Add(a.LayerBounds.Min).Add(image.Pt(w-1, h-1))

			if t.P(3) {
				ww := t.R(1, w)
				b.Image = gen.NewLeaf(t.Rng, gen.KNRGBA, image.Rect(0, 0, ww, h), nil, false)
				b.LayerBounds = image.Rect(w-ww, 0, w, h).Add(a.LayerBounds.Min)
			}

			if t.B() {
				i = append(limage.Image{a}, append(i, b)...)
			} else {
				i = append(i, a, b)
			}

			gen.Move(i, image.Pt(t.R(-20, 20), t.R(-20, 20)))

			m = i
			if t.P(5) {
				m = &i
			}
		}

		t.Describe("%s", gen.DescribeImage(m))

		bounds := m.Bounds()

		b := encode(t, m)

		d, err := gen.ReadOra(b)
		if err != nil {
			t.Fail("%v", err)
		}

		merged, err := png.Decode(bytes.NewReader(d.Files["mergedimage.png"]))
		if err != nil {
			t.Fail("mergedimage.png: %v", err)
		}

		var flat *gen.Flat

		switch i := m.(type) {
		case limage.Layer:
			flat = gen.Flatten(limage.Image{i})
		default:
			flat = gen.Flatten(m)
		}

		want, err := gen.PNGTrip(flat)
		if err != nil {
			t.Fail("the generator made a picture without PNG: %v", err)
		}

		if s := gen.SameAsPNG(flat, want, merged); s != "" {
			t.Fail("mergedimage.png (colour model of a %T): %s", flat.At(bounds.Min.X, bounds.Min.Y), s)
		}

		t.Eval(bounds.Dx() * bounds.Dy())

		thumb, err := png.Decode(bytes.NewReader(d.Files["Thumbnails/thumbnail.png"]))
		if err != nil {
			t.Fail("thumbnail.png: %v", err)
		}

		checkThumb(t, merged, thumb)

		t.Key(rt.Hash(uint64(bounds.Dx()), uint64(bounds.Dy()), rt.HashS(gen.DescribeImage(m))))
		t.Sample("%v of %s", bounds, gen.DescribeImage(m))
	},
}

func checkThumb(t *rt.T, full, thumb image.Image) {
	w, h := full.Bounds().Dx(), full.Bounds().Dy()
	tw, th := thumb.Bounds().Dx(), thumb.Bounds().Dy()

	if tw < 1 || tw > 256 || th < 1 || th > 256 {
		t.Fail("the thumbnail of a %dx%d image is %dx%d", w, h, tw, th)
	}

	if w <= 256 && h <= 256 {
		if s := gen.SamePicture(full, thumb); s != "" {
			t.Fail("the thumbnail differs from the %dx%d image: %s", w, h, s)
		}

		t.Count("thumbnails_identical", 1)

		return
	}

	big := w
	if h > w {
		big = h
	}

	k := 256 / float64(big)

	if math.Abs(float64(tw)-math.Max(1, float64(w)*k)) > 1.001 || math.Abs(float64(th)-math.Max(1, float64(h)*k)) > 1.001 {
		t.Fail("the thumbnail of a %dx%d image is %dx%d", w, h, tw, th)
	}

	pix := make([][4]uint32, 0, w*h)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			pix = append(pix, gen.Pre16(full.At(x, y)))
		}
	}

	// the source pixels of a thumbnail pixel, give or take one thumbnail pixel,
	// as its size is rounded
	span := func(i, n, size int) (int, int) {
		s := int(math.Ceil(1 / k))
		a := int(float64(i)*float64(size)/float64(n)) - s
		b := int(math.Ceil(float64(i+1)*float64(size)/float64(n))) + s

		if a < 0 {
			a = 0
		}

		if b > size {
			b = size
		}

		return a, b
	}

	t.Count("thumbnails_scaled", 1)

	for y := 0; y < th; y++ {
		y0, y1 := span(y, th, h)

		for x := 0; x < tw; x++ {
			x0, x1 := span(x, tw, w)
			c := gen.Pre16(thumb.At(x, y))

			t.Eval(1)

			for k := 0; k < 4; k++ {
				lo, hi := uint32(math.MaxUint32), uint32(0)

				for sy := y0; sy < y1; sy++ {
					for sx := x0; sx < x1; sx++ {
						v := pix[sy*w+sx][k]
						if v < lo {
							lo = v
						}

						if v > hi {
							hi = v
						}
					}
				}

				if c[k]+0x180 < lo || c[k] > hi+0x180 {
					t.Fail("thumbnail pixel (%d,%d) of %dx%d is %v; component %d of the image in (%d,%d)-(%d,%d) is between %d and %d", x, y, tw, th, c, k, x0, y0, x1, y1, lo, hi)
				}
			}
		}
	}
}

var _ color.Color
