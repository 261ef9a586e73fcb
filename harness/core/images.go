package main

import (
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"math"
	"strings"

	"verif/gen"
	"verif/rt"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
)

type subber interface {
	draw.Image
	SubImage(image.Rectangle) image.Image
}

// --- C08 ----------------------------------------------------------------------

// store is the reference: the raw value of each pixel ever set, by coordinates
// of the root image.
type store struct {
	root  image.Rectangle
	pix   map[image.Point]color.Color // as the image should show it
	zero  func(color.Color) bool
	exact bool
}

type view struct {
	img  subber
	rect image.Rectangle
	path string
}

func randRect(t *rt.T, max int) image.Rectangle {
	p := image.Pt(t.R(-20, 20), t.R(-20, 20))

	if t.P(4) {
		p = image.Point{}
	} else if t.P(8) {
		p = image.Pt(t.R(-1000000, 1000000), t.R(-1000000, 1000000))
	}

	return image.Rectangle{p, p.Add(image.Pt(t.R(1, max), t.R(1, max)))}
}

// near makes a rectangle that lies in, over, around or outside of r.
func near(t *rt.T, r image.Rectangle) image.Rectangle {
	if t.P(10) {
		return image.Rectangle{}
	}

	w, h := r.Dx(), r.Dy()
	a := image.Pt(r.Min.X+t.R(-2, w+1), r.Min.Y+t.R(-2, h+1))
	b := image.Pt(r.Min.X+t.R(-1, w+3), r.Min.Y+t.R(-1, h+3))

	return image.Rectangle{a, b}.Canon()
}

var c08 = &rt.Check{
	ID: "C08", Level: "exploration",
	Rule: "histories of up to 60 operations (Set with colours of every type, raw setters, writes to Pix at PixOffset, taking sub-images of the image or of sub-images) on RGB, grey+alpha and paletted+alpha images with random bounds, through the image and its sub-images, in and out of bounds; after every operation every pixel of every view, inside and just outside, is compared with a map of the pixels set. Non-trivial: operations that changed or tried to change a pixel; counted by hash of the state after it.",
	N:    rt.Cases(40000, 2000000), MinKeys: 5000,
	Run: func(t *rt.T) {
		rect := randRect(t, 7)
		pal := gen.Palette(t.Rng, 0)
		s := store{root: rect, pix: map[image.Point]color.Color{}, exact: true}

		var (
			root subber
			kind = t.Idx % 3
		)

		switch kind {
		case 0:
			root = limage.NewRGB(rect)
		case 1:
			root = limage.NewGrayAlpha(rect)
		default:
			root = limage.NewPalettedAlpha(rect, lcolor.AlphaPalette(pal))
			s.exact = false
		}

		views := []view{{root, rect, "image"}}
		log := []string{fmt.Sprintf("%T %v", root, rect)}

		fail := func(f string, a ...interface{}) {
			t.Describe("%s", strings.Join(log, "; "))
			t.Fail(f, a...)
		}

		zero := func(c color.Color) bool {
			if c == nil {
				return false
			}

			p := gen.Pre16(c)

			return p[0] == 0 && p[1] == 0 && p[2] == 0 && (kind == 0 || p[3] == 0)
		}

		check := func() {
			for _, v := range views {
				if b := v.img.Bounds(); !b.Eq(v.rect) {
					fail("bounds of %s are %v, want %v", v.path, b, v.rect)
				}

				around := v.rect.Inset(-2)
				if v.rect.Empty() {
					around = rect.Inset(-1)
				}

				for y := around.Min.Y; y < around.Max.Y; y++ {
					for x := around.Min.X; x < around.Max.X; x++ {
						p := image.Pt(x, y)
						got := v.img.At(x, y)

						t.Eval(1)

						if !p.In(v.rect) {
							if !zero(got) {
								fail("%s reads %#v at %v, outside of its bounds %v", v.path, got, p, v.rect)
							}

							continue
						}

						want, ok := s.pix[p]
						if !ok {
							if !zero(got) {
								fail("%s reads %#v at %v, which was never set", v.path, got, p)
							}

							continue
						}

						if s.exact && got != want || !s.exact && !samePal(got, want) {
							fail("%s reads %#v at %v, want %#v", v.path, got, p, want)
						}

						var raw color.Color

						switch i := v.img.(type) {
						case *limage.RGB:
							raw = i.RGBAt(x, y)
						case *limage.GrayAlpha:
							raw = i.GrayAlphaAt(x, y)
						case *limage.PalettedAlpha:
							ia := i.IndexAlphaAt(x, y)
							r, g, b, _ := pal[ia.I].RGBA()
							raw = color.NRGBA{uint8(r >> 8), uint8(g >> 8), uint8(b >> 8), ia.A}
						}

						if raw != got {
							fail("%s reads %#v at %v but its raw getter gives %#v", v.path, got, p, raw)
						}

						switch i := v.img.(type) {
						case *limage.RGB:
							raw = i.Pix[i.PixOffset(x, y)]
						case *limage.GrayAlpha:
							raw = i.Pix[i.PixOffset(x, y)]
						case *limage.PalettedAlpha:
							ia := i.Pix[i.PixOffset(x, y)]
							r, g, b, _ := pal[ia.I].RGBA()
							raw = color.NRGBA{uint8(r >> 8), uint8(g >> 8), uint8(b >> 8), ia.A}
						}

						if raw != got {
							fail("%s reads %#v at %v but has %#v at its PixOffset in Pix", v.path, got, p, raw)
						}
					}
				}
			}
		}

		check()

		if t.P(50) { // an image without a palette has no colours, but can be read
			e := limage.NewPalettedAlpha(rect, nil)

			t.Guard("reading an image without a palette", func() {
				t.Describe("%T %v without a palette", e, rect)

				for _, i := range []image.Image{e, e.SubImage(near(t, rect)), &limage.PalettedAlpha{}} {
					gen.Points(t.Rng, rect.Inset(-1), 20, func(x, y int) { i.At(x, y) })
					i.(interface{ Opaque() bool }).Opaque()
				}
			})
		}

		n := t.R(5, 60)

		for op := 0; op < n; op++ {
			v := views[t.N(len(views))]

			if t.P(6) && len(views) < 6 {
				r := near(t, v.rect)
				si, ok := v.img.SubImage(r).(subber)

				log = append(log, fmt.Sprintf("%s.SubImage(%v)", v.path, r))

				if !ok {
					fail("sub-image is a %T", v.img.SubImage(r))
				}

				want := r.Intersect(v.rect)
				views = append(views, view{si, want, fmt.Sprintf("sub-image %d", len(views))})

				if si.ColorModel() == nil {
					fail("sub-image without a colour model")
				}
			} else {
				area := v.rect.Inset(-2)
				if v.rect.Empty() {
					area = rect
				}

				p := image.Pt(area.Min.X+t.N(area.Dx()), area.Min.Y+t.N(area.Dy()))

				var want color.Color

				if p.In(v.rect) && t.P(6) { // straight into the slice
					switch i := v.img.(type) {
					case *limage.RGB:
						c := lcolor.RGB{R: t.U8(), G: t.U8(), B: t.U8()}
						want = c
						i.Pix[i.PixOffset(p.X, p.Y)] = c
					case *limage.GrayAlpha:
						c := lcolor.GrayAlpha{Y: t.U8(), A: t.Edge8()}
						want = c
						i.Pix[i.PixOffset(p.X, p.Y)] = c
					case *limage.PalettedAlpha:
						c := lcolor.IndexedAlpha{I: uint8(t.N(len(pal))), A: t.Edge8()}
						r, g, b, _ := pal[c.I].RGBA()
						want = color.NRGBA{uint8(r >> 8), uint8(g >> 8), uint8(b >> 8), c.A}
						i.Pix[i.PixOffset(p.X, p.Y)] = c
					}
				} else if t.P(3) {
					switch i := v.img.(type) {
					case *limage.RGB:
						c := lcolor.RGB{R: t.U8(), G: t.U8(), B: t.U8()}
						want = c

						i.SetRGB(p.X, p.Y, c)
					case *limage.GrayAlpha:
						c := lcolor.GrayAlpha{Y: t.U8(), A: t.Edge8()}
						want = c

						i.SetGrayAlpha(p.X, p.Y, c)
					case *limage.PalettedAlpha:
						c := lcolor.IndexedAlpha{I: uint8(t.N(len(pal))), A: t.Edge8()}
						r, g, b, _ := pal[c.I].RGBA()
						want = color.NRGBA{uint8(r >> 8), uint8(g >> 8), uint8(b >> 8), c.A}

						i.SetIndexAlpha(p.X, p.Y, c)
					}
				} else {
					c := gen.AnyColour(t.Rng)
					if m := root.ColorModel(); kind == 2 {
						want = m.Convert(c)
					} else {
						want = m.Convert(c)
					}

					v.img.Set(p.X, p.Y, c)
				}

				log = append(log, fmt.Sprintf("%s set at %v to %v", v.path, p, want))

				if p.In(v.rect) {
					s.pix[p] = want
					t.Count("pixels set", 1)
				} else {
					t.Count("sets out of bounds", 1)
				}

				g := gen.Pre16(want)
				t.Key(rt.Hash(uint64(kind), uint64(p.X-rect.Min.X), uint64(p.Y-rect.Min.Y), uint64(rect.Dx()), uint64(g[0])<<32|uint64(g[1]), uint64(g[2])<<32|uint64(g[3])))
			}

			check()
		}

		t.Count("views", len(views))

		if len(log) > 12 {
			log = log[:12]
		}

		t.Sample("%s", strings.Join(log, "; "))
	},
}

// samePal compares a pixel of a paletted+alpha image (8-bit) with the model's
// 16-bit colour.
func samePal(got, want color.Color) bool {
	if got == nil {
		return false
	}

	g, w := gen.StraightOf(got), gen.StraightOf(want)
	if math.Abs(g.A-w.A) > 1.01/255 {
		return false
	}

	const e = 1.01 / 255

	if n, ok := want.(color.NRGBA64); ok && n.A == 0 {
		return true
	}

	return math.Abs(g.R-w.R) < e && math.Abs(g.G-w.G) < e && math.Abs(g.B-w.B) < e
}

// --- C09 ----------------------------------------------------------------------

var c09 = &rt.Check{
	ID: "C09", Level: "exploration",
	Rule: "RGB, grey+alpha and paletted+alpha images that are opaque but for 0 to 3 pixels of various alphas at random places, and their sub-images (nested): Opaque against the alphas that At shows. Non-trivial: images with at least one translucent pixel, inside or outside the sub-image.",
	N:    rt.Cases(50000, 3000000), MinKeys: 2000,
	Run: func(t *rt.T) {
		for rep := 0; rep < 10; rep++ {
			rect := randRect(t, 8)
			kind := t.N(3)

			var root interface {
				image.Image
				Opaque() bool
				SubImage(image.Rectangle) image.Image
			}

			al := func() uint8 { return []uint8{0, 1, 0x7f, 0x80, 0xfe}[t.N(5)] }
			bad := t.Pick(0, 1, 1, 2, 3)
			spots := map[image.Point]uint8{}

			for i := 0; i < bad; i++ {
				p := image.Pt(rect.Min.X+t.N(rect.Dx()), rect.Min.Y+t.N(rect.Dy()))
				spots[p] = al()
			}

			all := t.P(8)
			alpha := func(x, y int) uint8 {
				if a, ok := spots[image.Pt(x, y)]; ok {
					return a
				} else if all {
					return 0x80
				}

				return 0xff
			}

			switch kind {
			case 0:
				root = limage.NewRGB(rect)
			case 1:
				g := limage.NewGrayAlpha(rect)
				for y := rect.Min.Y; y < rect.Max.Y; y++ {
					for x := rect.Min.X; x < rect.Max.X; x++ {
						g.SetGrayAlpha(x, y, lcolor.GrayAlpha{Y: t.U8(), A: alpha(x, y)})
					}
				}

				root = g
			default:
				pal := gen.Palette(t.Rng, 0)
				g := limage.NewPalettedAlpha(rect, lcolor.AlphaPalette(pal))

				for y := rect.Min.Y; y < rect.Max.Y; y++ {
					for x := rect.Min.X; x < rect.Max.X; x++ {
						g.SetIndexAlpha(x, y, lcolor.IndexedAlpha{I: uint8(t.N(len(pal))), A: alpha(x, y)})
					}
				}

				root = g
			}

			cur := root

			for depth := 0; depth < 3; depth++ {
				want := true
				b := cur.Bounds()

				for y := b.Min.Y; y < b.Max.Y; y++ {
					for x := b.Min.X; x < b.Max.X; x++ {
						if _, _, _, a := cur.At(x, y).RGBA(); a != 0xffff {
							want = false
						}
					}
				}

				t.Eval(1)
				t.Count(fmt.Sprintf("opaque %v", want), 1)

				if got := cur.Opaque(); got != want {
					t.Fail("%T with bounds %v, sub-image (depth %d) of %v, translucent at %v: Opaque() = %v, want %v", cur, b, depth, rect, spots, got, want)
				}

				if len(spots) > 0 {
					h := rt.Hash(uint64(kind), uint64(b.Dx()), uint64(b.Dy()), uint64(depth))
					for p := range spots {
						q := p.Sub(b.Min)
						h ^= rt.Hash(uint64(q.X), uint64(q.Y))
					}

					t.Key(h)
				}

				next, ok := cur.SubImage(near(t, b)).(interface {
					image.Image
					Opaque() bool
					SubImage(image.Rectangle) image.Image
				})
				if !ok {
					t.Fail("sub-image has no Opaque")
				}

				cur = next
			}
		}
	},
}

// --- C10 ----------------------------------------------------------------------

// flattener computes pixels of a tree layer by layer with the public blend
// functions only.
type flattener struct {
	random  bool
	rounded bool   // a colour became opaque, and its parts rounded
	nudge   [3]int // rounds them otherwise
}

// near tells whether a colour is what comes out if the colours that are made
// opaque are rounded one way or the other, which a blend above can make much of.
func (f flattener) near(img limage.Image, x, y int, got color.Color) bool {
	var lo, hi [4]int

	for n := 0; n < 27; n++ {
		f.nudge = [3]int{n%3 - 1, n/3%3 - 1, n/9 - 1}

		for k, v := range gen.Pre16(f.image(img, x, y)) {
			if n == 0 || int(v) < lo[k] {
				lo[k] = int(v)
			}

			if n == 0 || int(v) > hi[k] {
				hi[k] = int(v)
			}
		}
	}

	for k, v := range gen.Pre16(got) {
		if int(v) < lo[k]-1 || int(v) > hi[k]+1 {
			return false
		}
	}

	return true
}

// rounds is the 16-bit value of a part of a colour.
func (f *flattener) rounds(v float64, k int) uint16 {
	n := int(v*65535+0.5) + f.nudge[k]
	if n < 0 {
		n = 0
	} else if n > 65535 {
		n = 65535
	}

	return uint16(n)
}

func applyOpacity(c color.Color, tr uint8) color.Color {
	return limage.Layer{LayerBounds: image.Rect(0, 0, 1, 1), Transparency: tr, Image: image.NewUniform(c)}.At(0, 0)
}

func applyMask(c color.Color, y uint8) color.Color {
	m := image.NewGray(image.Rect(0, 0, 1, 1))
	m.Pix[0] = y

	return limage.MaskedImage{Image: image.NewUniform(c), Mask: m}.At(0, 0)
}

func (f *flattener) leaf(i image.Image, x, y int) color.Color {
	switch i := gen.Plain(i).(type) {
	case limage.Image:
		return f.image(i, x, y)
	case limage.MaskedImage:
		return applyMask(f.leaf(i.Image, x, y), i.Mask.GrayAt(x, y).Y)
	case limage.Text:
		return f.leaf(i.Image, x, y)
	}

	return i.At(x, y)
}

func (f *flattener) image(img limage.Image, x, y int) color.Color {
	var (
		c   color.Color = color.Alpha{}
		pal bool
	)

	if len(img) > 0 {
		_, pal = modelOf(img[0].Image).(color.Palette)
	}

	for n := len(img) - 1; n >= 0; n-- {
		l := img[n]
		b := l.LayerBounds

		if l.Invisible || x < b.Min.X || x >= b.Max.X || y < b.Min.Y || y >= b.Max.Y {
			continue
		}

		p := applyOpacity(f.leaf(l.Image, x-b.Min.X, y-b.Min.Y), l.Transparency)
		_, _, _, a := p.RGBA()

		switch {
		case l.Mode == limage.CompositeDissolve:
			if a != 0 && a != 0xffff {
				f.random = true
			}

			if a == 0xffff {
				c = p
			}
		case pal:
			if s := gen.StraightOf(p); a > 0x7fff {
				f.rounded = true
				c = color.NRGBA64{f.rounds(s.R, 0), f.rounds(s.G, 1), f.rounds(s.B, 2), 0xffff}
			}
		default:
			c = l.Mode.Composite(c, p)
		}
	}

	return c
}

func modelOf(i image.Image) color.Model {
	switch i := gen.Plain(i).(type) {
	case limage.Image:
		if len(i) == 0 {
			return color.AlphaModel
		}

		return modelOf(i[0].Image)
	case limage.MaskedImage:
		return modelOf(i.Image)
	case limage.Text:
		return modelOf(i.Image)
	}

	return i.ColorModel()
}

func union(img limage.Image) image.Rectangle {
	var r image.Rectangle

	for _, l := range img {
		b := l.LayerBounds

		switch {
		case b.Empty():
		case r.Empty():
			r = b
		default:
			if b.Min.X < r.Min.X {
				r.Min.X = b.Min.X
			}

			if b.Min.Y < r.Min.Y {
				r.Min.Y = b.Min.Y
			}

			if b.Max.X > r.Max.X {
				r.Max.X = b.Max.X
			}

			if b.Max.Y > r.Max.Y {
				r.Max.Y = b.Max.Y
			}
		}
	}

	return r
}

func countLayers(img limage.Image) (n, groups int) {
	for _, l := range img {
		n++

		i := gen.Plain(l.Image)
		if m, ok := i.(limage.MaskedImage); ok {
			i = gen.Plain(m.Image)
		}

		if g, ok := i.(limage.Image); ok {
			a, b := countLayers(g)
			n += a
			groups += b + 1
		}
	}

	return n, groups
}

var c10 = &rt.Check{
	ID: "C10", Level: "exploration",
	Rule: "random trees (up to 4 layers per group, 3 levels, offsets of either sign, all modes, hidden layers, opacities, masks, texts, 15 kinds of leaf image, indexed images, layers whose bounds are not their image's); every point of the union and around it compared with a fold over the layers made of public blends (Dissolve only where it cannot be random). Non-trivial: points where at least two visible layers overlap; counted by hash of tree and point.",
	N:    rt.Cases(80000, 4000000), MinKeys: 10000,
	Run: func(t *rt.T) {
		o := gen.DefaultTree(t.Rng)
		o.AnyColours = t.P(3)

		if t.P(3) {
			o.Modes = []limage.Composite{limage.CompositeNormal}
		}

		if t.P(3) {
			o.MaxOffset = 3
		}

		img := o.Image(t.Rng, t.N(4))

		if t.P(100) {
			img = o.Stress(t.Rng, img)
			t.Count("unusual_shapes", 1)
		}

		if t.P(4) {
			gen.Pointers(t.Rng, img)
			t.Count("trees_with_pointers", 1)
		}

		t.Describe("%s", gen.DescribeImage(img))
		t.Sample("%s", gen.DescribeImage(img))

		b := img.Bounds()
		if w := union(img); b != w && !(b.Empty() && w.Empty()) {
			t.Fail("bounds are %v, want %v", b, w)
		}

		n, g := countLayers(img)
		t.Count("layers", n)
		t.Count("groups", g)

		gen.Points(t.Rng, b.Inset(-2), 900, func(x, y int) {
			f := flattener{}
			want := f.image(img, x, y)

			if f.random {
				t.Count("points skipped (Dissolve)", 1)

				return
			}

			got := img.At(x, y)
			t.Eval(1)

			if d := gen.Diff16(got, want); d > 1 && !(f.rounded && f.near(img, x, y, got)) {
				t.Fail("pixel (%d,%d) is %v, want %v", x, y, gen.Pre16(got), gen.Pre16(want))
			}

			vis := 0

			for _, l := range img {
				if !l.Invisible && image.Pt(x, y).In(l.LayerBounds) {
					vis++
				}
			}

			if vis > 1 {
				t.Count("points with overlap", 1)
				t.Key(rt.Hash(uint64(t.Idx), uint64(x), uint64(y)))
			}
		})
	},
}

// --- C11 ----------------------------------------------------------------------

// sameMeta compares all of two trees but geometry and pixels.
func sameMeta(a, b limage.Image) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d layers instead of %d", len(b), len(a))
	}

	for n := range a {
		x, y := a[n], b[n]
		if x.Name != y.Name || x.Mode != y.Mode || x.Invisible != y.Invisible || x.Transparency != y.Transparency {
			return fmt.Sprintf("layer %q %s hidden %v transparency %d instead of %q %s %v %d", y.Name, y.Mode, y.Invisible, y.Transparency, x.Name, x.Mode, x.Invisible, x.Transparency)
		}

		if y.LayerBounds.Empty() {
			continue
		}

		if s := sameKind(x.Image, y.Image); s != "" {
			return fmt.Sprintf("layer %q: %s", x.Name, s)
		}
	}

	return ""
}

func sameKind(a, b image.Image) string {
	b = gen.Plain(b)

	switch a := gen.Plain(a).(type) {
	case limage.Image:
		g, ok := b.(limage.Image)
		if !ok {
			return fmt.Sprintf("a %T instead of a group", b)
		}

		return sameMeta(a, g)
	case limage.MaskedImage:
		g, ok := b.(limage.MaskedImage)
		if !ok {
			return fmt.Sprintf("a %T instead of a masked image", b)
		}

		return sameKind(a.Image, g.Image)
	case limage.Text:
		g, ok := b.(limage.Text)
		if !ok {
			return fmt.Sprintf("a %T instead of a text", b)
		}

		if len(g.TextData) != len(a.TextData) {
			return "different text data"
		}

		for i := range a.TextData {
			if a.TextData[i] != g.TextData[i] {
				return "different text data"
			}
		}

		return sameKind(a.Image, g.Image)
	}

	return ""
}

type imageSubber interface {
	image.Image
	SubImage(image.Rectangle) image.Image
}

// nothingOutside tells which layer that the rectangle cut still has pixels
// outside of it.
func nothingOutside(t *rt.T, was, is limage.Image, rect, area image.Rectangle) (s string) {
	for n, l := range is {
		if was[n].LayerBounds.In(rect) {
			continue
		}

		t.Count("cut_layers", 1)

		gen.Points(t.Rng, area, 60, func(x, y int) {
			if !image.Pt(x, y).In(l.LayerBounds) && s == "" {
				if c := l.At(x, y); gen.Pre16(c)[3] != 0 {
					s = fmt.Sprintf("layer %d, cut by %v to %v, has %v at (%d,%d)", n, rect, l.LayerBounds, gen.Pre16(c), x, y)
				}
			}
		})
	}

	return s
}

var c11 = &rt.Check{
	ID: "C11", Level: "exploration",
	Rule: "random trees as in C10 without random Dissolve; random rectangles inside, across, around and off the image and off its layers, up to 3 levels of sub-images of sub-images, of whole images and of single layers; every point in and around the rectangle compared with the original, before and after writing to the original's leaf pixels; the rest of the layers' state compared, and the original with a snapshot. Non-trivial: rectangles that cut a layer; counted by hash of tree and rectangle.",
	N:    rt.Cases(60000, 2000000), MinKeys: 800,
	Run: func(t *rt.T) {
		o := gen.DefaultTree(t.Rng)
		modes := o.Modes[:0]

		for _, m := range o.Modes {
			if m != limage.CompositeDissolve {
				modes = append(modes, m)
			}
		}

		o.Modes = modes
		img := o.Image(t.Rng, t.N(3))

		if t.P(100) {
			img = o.Stress(t.Rng, img)
			t.Count("unusual_shapes", 1)
		}

		if t.P(4) {
			gen.Pointers(t.Rng, img)
			t.Count("trees_with_pointers", 1)
		}

		area := img.Bounds().Inset(-3)

		if area.Empty() {
			area = image.Rect(-2, -2, 3, 3)
		}

		before := gen.Snapshot(img)

		var (
			top   imageSubber = img
			clip              = image.Rect(-1<<20, -1<<20, 1<<20, 1<<20)
			steps []string
		)

		layer := t.P(3) && len(img) > 0
		if layer {
			l := img[t.N(len(img))]
			top = l
			clip = l.LayerBounds
			area = clip.Inset(-3)
		}

		cur := top
		visible := func(x, y int) color.Color {
			if layer && !image.Pt(x, y).In(clip) {
				return color.Alpha{}
			}

			return top.At(x, y)
		}

		compare := func(rect image.Rectangle) {
			t.Describe("%s of %s", strings.Join(steps, ", then "), gen.DescribeImage(top))

			if b := cur.Bounds(); !b.In(rect) {
				t.Fail("bounds are %v, the rectangle is %v", b, rect)
			}

			gen.Points(t.Rng, area, 700, func(x, y int) {
				got := cur.At(x, y)
				t.Eval(1)

				if !image.Pt(x, y).In(rect) {
					if _, _, _, a := got.RGBA(); a != 0 && !layer {
						t.Fail("pixel (%d,%d), outside of the rectangle, is %v", x, y, gen.Pre16(got))
					}

					return
				}

				if layer && !image.Pt(x, y).In(clip) {
					return
				}

				if want := visible(x, y); gen.Diff16(got, want) > 1 {
					t.Fail("pixel (%d,%d) is %v, in the original %v", x, y, gen.Pre16(got), gen.Pre16(want))
				}
			})

			var s string

			switch c := cur.(type) {
			case limage.Image:
				s = sameMeta(top.(limage.Image), c)
				if s == "" {
					s = nothingOutside(t, top.(limage.Image), c, rect, area)
				}
			case limage.Layer:
				s = sameMeta(limage.Image{top.(limage.Layer)}, limage.Image{c})
				if s == "" {
					s = nothingOutside(t, limage.Image{top.(limage.Layer)}, limage.Image{c}, rect, area)
				}
			default:
				s = fmt.Sprintf("is a %T", cur)
			}

			if s != "" {
				t.Fail("%s", s)
			}
		}

		rect := clip

		for depth := 0; depth < t.R(1, 3); depth++ {
			r := near(t, area)

			if t.P(3) && len(img) > 0 { // aim at one layer
				r = near(t, img[t.N(len(img))].LayerBounds)
			}

			steps = append(steps, fmt.Sprintf("SubImage(%v)", r))
			t.Describe("%s of %s", strings.Join(steps, ", then "), gen.DescribeImage(top))

			next, ok := cur.SubImage(r).(imageSubber)
			if !ok {
				t.Fail("sub-image is a %T", cur.SubImage(r))
			}

			cur = next
			rect = rect.Intersect(r)

			if rect.Empty() {
				rect = image.Rectangle{}
			}

			for _, l := range img {
				if c := l.LayerBounds.Intersect(r); !c.Empty() && c != l.LayerBounds {
					t.Key(rt.Hash(uint64(t.Idx), uint64(r.Min.X), uint64(r.Min.Y), uint64(r.Max.X), uint64(r.Max.Y)))
					t.Count("layers cut", 1)
				}
			}

			compare(rect)
		}

		t.Sample("%s of %s", strings.Join(steps, ", then "), gen.DescribeImage(top))

		if !gen.SameSnap(before, gen.Snapshot(img)) {
			t.Fail("taking a sub-image changed the original")
		}

		// write to the leaves of the original
		writes := 0

		gen.Walk(top, func(_ string, i image.Image) {
			d, ok := i.(draw.Image)
			if !ok {
				return
			}

			b := d.Bounds()
			if b.Empty() || b.Dx() > 1000 {
				return
			}

			for k := 0; k < 10; k++ {
				d.Set(b.Min.X+t.N(b.Dx()), b.Min.Y+t.N(b.Dy()), color.NRGBA{t.U8(), t.U8(), t.U8(), t.Edge8()})

				writes++
			}
		})

		if writes > 0 {
			t.Count("writes to the original", writes)
			steps = append(steps, "writing to the original")
			compare(rect)
		}
	},
}

// --- C12 ----------------------------------------------------------------------

func checkScaled(t *rt.T, got, c color.Color, level int, what string) {
	t.Eval(1)

	switch level {
	case 255:
		if !gen.SameColour(got, c) {
			t.Fail("%s: full level turns %#v into %#v", what, c, got)
		}

		return
	case 0:
		if gen.Pre16(got) != [4]uint32{} {
			t.Fail("%s: level 0 turns %#v into %#v", what, c, got)
		}

		return
	}

	s := gen.StraightOf(c)
	want := s
	want.A *= float64(level) / 255

	if a := math.Round(want.A * 65535); math.Abs(want.A*65535-a) < 1e-6 && float64(gen.Pre16(got)[3]) != a {
		t.Fail("%s: level %d turns %#v into %#v, want an alpha of exactly %.0f", what, level, c, got, a)
	}

	if d := gen.PremulDiff(got, want); d > 4 {
		t.Fail("%s: level %d turns %#v into %#v, premultiplied %v, want %v", what, level, c, got, gen.Pre16(got), want.Premul())
	}

	if n, ok := got.(color.NRGBA64); ok && n.A > 0 {
		_, _, _, a := c.RGBA()
		e := 10 + 3*65535/float64(a)

		if math.Abs(float64(n.R)-s.R*65535) > e || math.Abs(float64(n.G)-s.G*65535) > e || math.Abs(float64(n.B)-s.B*65535) > e {
			t.Fail("%s: level %d turns %#v into %#v, another colour", what, level, c, got)
		}
	}
}

var c12 = &rt.Check{
	ID: "C12", Level: "exploration",
	Rule: "all 256 levels of opacity and of mask over colours of every Go type (random and boundary), through layers at random offsets, masks smaller than, larger than and off their image, masked text and masked groups, and opacity over masks; text data of 0 to 6 pieces joined. Non-trivial: levels strictly between and translucent colours; counted by hash.",
	N:    rt.Cases(4000, 200000), MinKeys: 5000,
	Run: func(t *rt.T) {
		for rep := 0; rep < 12; rep++ {
			c := gen.RandColour(t.Rng, (t.Idx+rep)%gen.NTypes)
			off := image.Pt(t.R(-9, 9), t.R(-9, 9))
			p := gen.Pre16(c)
			u := image.NewUniform(c)

			for level := 0; level < 256; level++ {
				l := limage.Layer{LayerBounds: image.Rect(0, 0, 3, 3).Add(off), Transparency: uint8(255 - level), Image: u}
				checkScaled(t, l.At(off.X+1, off.Y+2), c, level, "layer opacity")

				m := image.NewGray(image.Rect(0, 0, 2, 2))
				m.SetGray(1, 1, color.Gray{uint8(level)})
				mi := limage.MaskedImage{Image: u, Mask: m}
				checkScaled(t, mi.At(1, 1), c, level, "mask")

				if level > 0 && level < 255 && p[3] > 0 && p[3] < 0xffff {
					t.Key(rt.Hash(uint64(level), uint64(p[0])<<32|uint64(p[1]), uint64(p[2])<<32|uint64(p[3])))
				}
			}

			if rep == 0 {
				t.Sample("%#v at opacity 100: %#v", c, limage.Layer{LayerBounds: image.Rect(0, 0, 3, 3), Transparency: 155, Image: u}.At(0, 0))
			}
		}

		// whole images: mask geometry, text, groups
		tree := gen.DefaultTree(t.Rng)
		leaf := gen.NewLeaf(t.Rng, tree.Kinds[t.N(len(tree.Kinds))], randRect(t, 8), tree.Palette, true)
		b := leaf.Bounds()

		if b.Dx() > 100 {
			b = image.Rect(0, 0, 6, 6)
		}

		var in image.Image = leaf

		td := gen.RandText(t.Rng)
		if t.B() {
			in = limage.Text{Image: leaf, TextData: td}
		} else if t.P(3) {
			in = limage.Image{{LayerBounds: b, Image: gen.NewLeaf(t.Rng, gen.KNRGBA, image.Rect(0, 0, b.Dx(), b.Dy()), nil, true)}}
		}

		m := image.NewGray(near(t, b))
		gen.Fill(t.Rng, m, false)
		mi := limage.MaskedImage{Image: in, Mask: m}
		off := image.Pt(t.R(-9, 9), t.R(-9, 9))
		lv := t.Edge8()
		l := limage.Layer{LayerBounds: image.Rect(0, 0, b.Dx(), b.Dy()).Add(off), Transparency: 255 - lv, Image: mi}

		if !mi.Bounds().Eq(in.Bounds()) {
			t.Fail("a masked image has the bounds %v, its image %v", mi.Bounds(), in.Bounds())
		}

		gen.Points(t.Rng, b.Inset(-2), 200, func(x, y int) {
			c := in.At(x, y)
			level := 0

			if image.Pt(x, y).In(m.Rect) {
				level = int(m.Pix[(y-m.Rect.Min.Y)*m.Stride+x-m.Rect.Min.X])
			}

			checkScaled(t, mi.At(x, y), c, level, fmt.Sprintf("mask %v over %T %v at (%d,%d)", m.Rect, in, b, x, y))
			checkScaled(t, l.At(x+off.X, y+off.Y), mi.At(x, y), int(lv), "opacity over a mask")

			if tx, ok := in.(limage.Text); ok && !gen.SameColour(tx.At(x, y), leaf.At(x, y)) {
				t.Fail("a text layer shows %v where its image has %v", tx.At(x, y), leaf.At(x, y))
			}
		})

		s := ""
		for _, d := range td {
			s += d.Data
		}

		if td.String() != s {
			t.Fail("text %#v reads as %q", td, td.String())
		}
	},
}
