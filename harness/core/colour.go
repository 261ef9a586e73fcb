package main

import (
	"image"
	"image/color"
	"math"

	"verif/gen"
	"verif/rt"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
)

type toNRGBA interface{ ToNRGBA() color.NRGBA64 }

// validColour says what is wrong with a colour, or "".
func validColour(c color.Color) string {
	if c == nil {
		return "is nil"
	}

	r, g, b, a := c.RGBA()

	switch {
	case a > 0xffff:
		return "has an alpha above 0xffff"
	case r > a || g > a || b > a:
		return "has a component above its alpha"
	}

	var s color.NRGBA64

	switch c := c.(type) {
	case color.NRGBA64:
		s = c
	case toNRGBA:
		s = c.ToNRGBA()
	default:
		return ""
	}

	if uint32(s.A) != a {
		return "has a different alpha in its straight form"
	}

	want := gen.S64(s).Premul()

	for i, v := range [3]uint32{r, g, b} {
		if math.Abs(float64(v)-want[i]) > 2 {
			return "has a straight form that is a different colour"
		}
	}

	return ""
}

func checkColour(t *rt.T, c color.Color, what string, a ...interface{}) {
	t.Eval(1)

	if s := validColour(c); s != "" {
		if c == nil {
			t.Fail("nil colour from "+what, a...)
		}

		t.Fail("%#v %s (premultiplied %v), from "+what, append([]interface{}{c, s, gen.Pre16(c)}, a...)...)
	}
}

var c01 = &rt.Check{
	ID: "C01", Level: "exploration",
	Rule: "every RGB channel value and every grey+alpha value; HSV and HSL on a grid of boundary values and at random; blends of random colours of every Go colour type in every mode; every pixel, inside and outside, of random images of every kind (RGB, grey+alpha, paletted+alpha, masked, text, layers, nested groups, sub-images). Non-trivial: distinct colours or pixels that are neither transparent nor opaque black/white.",
	N:    rt.Cases(2000, 60000), MinKeys: 10000,
	Run: func(t *rt.T) {
		key := func(c color.Color) {
			p := gen.Pre16(c)
			if p[3] != 0 && p != [4]uint32{0, 0, 0, 0xffff} && p != [4]uint32{0xffff, 0xffff, 0xffff, 0xffff} {
				if h := rt.Hash(uint64(p[0]), uint64(p[1]), uint64(p[2]), uint64(p[3])); h&3 == 0 {
					t.Key(h)
				}
			}
		}

		switch {
		case t.Idx < 8: // 8-bit types, exhaustively
			for y := t.Idx * 32; y < t.Idx*32+32; y++ {
				for a := 0; a < 256; a++ {
					c := lcolor.GrayAlpha{Y: uint8(y), A: uint8(a)}
					checkColour(t, c, "grey+alpha")
					key(c)

					if n := c.ToNRGBA(); n != (color.NRGBA64{uint16(y) * 0x101, uint16(y) * 0x101, uint16(y) * 0x101, uint16(a) * 0x101}) {
						t.Fail("straight form of %#v is %v", c, n)
					}

					d := lcolor.RGB{R: uint8(y), G: uint8(a), B: uint8(y ^ a)}
					checkColour(t, d, "RGB")
					key(d)

					want := color.NRGBA64{uint16(d.R) * 0x101, uint16(d.G) * 0x101, uint16(d.B) * 0x101, 0xffff}
					if n := d.ToNRGBA(); n != want || !gen.SameColour(d, want) {
						t.Fail("straight form of %#v is %v, premultiplied %v", d, n, gen.Pre16(d))
					}
				}
			}

			t.Sample("grey+alpha and RGB values with Y or R in %d..%d", t.Idx*32, t.Idx*32+31)
		case t.Idx < 40: // HSV and HSL
			if t.Idx == 8 {
				for _, h := range grid {
					for _, s := range grid {
						for _, v := range grid {
							for _, a := range alphas {
								checkColour(t, lcolor.HSVA{H: h, S: s, V: v, A: a}, "HSV")
								checkColour(t, lcolor.HSLA{H: h, S: s, L: v, A: a}, "HSL")
							}
						}
					}
				}
			}

			for i := 0; i < 100000; i++ {
				c := gen.RandColour(t.Rng, 13+i&1)
				checkColour(t, c, "HSV/HSL")
				key(c)
			}
		case t.Idx%2 == 0: // blends
			for i := 0; i < 20000; i++ {
				m := limage.Composite(t.N(gen.NModes + 1))
				b, p := gen.AnyColour(t.Rng), gen.AnyColour(t.Rng)
				c := m.Composite(b, p)
				checkColour(t, c, "%s of top %#v on bottom %#v", m, p, b)
				key(c)
			}
		default: // images
			o := gen.DefaultTree(t.Rng)
			o.AnyColours = true
			img := o.Image(t.Rng, 2)
			r := img.Bounds().Inset(-2)
			gen.Walk(img, func(path string, i image.Image) {
				rr := r
				if b := i.Bounds(); !b.Empty() {
					rr = b.Inset(-2)
				}

				gen.Points(t.Rng, rr, 400, func(x, y int) {
					if p, ok := i.(*limage.PalettedAlpha); ok && p.Palette == nil {
						return
					}

					c := i.At(x, y)
					checkColour(t, c, "pixel (%d,%d) of %s (%T)", x, y, path, i)
					key(c)
				})
			})
			t.Sample("%s", gen.DescribeImage(img))
		}
	},
}

// --- C02 ----------------------------------------------------------------------

func circDiff(a, b float64) float64 {
	d := math.Mod(math.Abs(a-b), 65535)

	return math.Min(d, 65535-d)
}

func checkConv(t *rt.T, c color.Color) {
	s := gen.StraightOf(c)
	n := straight64(c)

	t.Eval(4)

	v := lcolor.RGBToHSV(c)
	h, sat, val := gen.RGBToHSV(s)

	if v.A != n.A || math.Abs(float64(v.V)-val*65535) > 0.01 || math.Abs(float64(v.S)-sat*65535) > 1.01 || circDiff(float64(v.H), h*65535) > 1.5 {
		t.Fail("%#v converts to %#v, want hue %.1f saturation %.1f value %.1f alpha %d", c, v, h*65535, sat*65535, val*65535, n.A)
	}

	l := lcolor.RGBToHSL(c)

	// the hues of red, which is not the full circle, green and blue are exact
	for k, x := range [3][3]uint16{{n.R, n.G, n.B}, {n.G, n.R, n.B}, {n.B, n.R, n.G}} {
		if w := uint16(k * 21845); x[1] == x[2] && x[0] > x[1] && (v.H != w || l.H != w) {
			t.Fail("%#v converts to %#v and %#v, want hue %d", c, v, l, w)
		}
	}

	mn, mx := n.R, n.R
	for _, x := range [2]uint16{n.G, n.B} {
		if x < mn {
			mn = x
		}

		if x > mx {
			mx = x
		}
	}

	// full intensity, full saturation and the ends of the lightness are exact
	if mn < mx && (mn == 0 && v.S != 0xffff || (mn == 0 || mx == 0xffff) && l.S != 0xffff) || mn == 0xffff && l.L != 0xffff {
		t.Fail("%#v converts to %#v and %#v", c, v, l)
	}

	h, sat, val = gen.RGBToHSL(s)

	if l.A != n.A || math.Abs(float64(l.L)-val*65535) > 1.01 || math.Abs(float64(l.S)-sat*65535) > 1.01 || circDiff(float64(l.H), h*65535) > 1.5 {
		t.Fail("%#v converts to %#v, want hue %.1f saturation %.1f lightness %.1f alpha %d", c, l, h*65535, sat*65535, val*65535, n.A)
	}

	for _, b := range [2]color.NRGBA64{v.ToNRGBA(), l.ToNRGBA()} {
		if b.A != n.A || absd(b.R, n.R) > 8 || absd(b.G, n.G) > 8 || absd(b.B, n.B) > 8 {
			t.Fail("%#v comes back from HSV %#v and HSL %#v as %v and %v", c, v, l, v.ToNRGBA(), l.ToNRGBA())
		}
	}
}

func absd(a, b uint16) int {
	if a > b {
		return int(a - b)
	}

	return int(b - a)
}

func checkBack(t *rt.T, c interface {
	color.Color
	ToNRGBA() color.NRGBA64
}) {
	t.Eval(1)

	w := gen.StraightOf(c)
	n := c.ToNRGBA()

	f := func(got uint16, want float64) bool { // none and full are exact
		return math.Abs(float64(got)-want*65535) > 2 || want < 1e-13 && got != 0 || want > 1-1e-13 && got != 0xffff
	}
	if f(n.R, w.R) || f(n.G, w.G) || f(n.B, w.B) || f(n.A, w.A) {
		t.Fail("%#v converts to %v, want %.1f %.1f %.1f %.1f", c, n, w.R*65535, w.G*65535, w.B*65535, w.A*65535)
	}
}

var c02 = &rt.Check{
	ID: "C02", Level: "exploration",
	Rule: "RGB: the whole 8-bit cube, 16-bit boundary grids and random colours with random alpha, to HSV and HSL and back; HSV and HSL: boundary grid and random values; all against the floating-point definitions. Non-trivial: non-grey colours; counted by hash, one in 64 of the cube.",
	N:    rt.Cases(256+100+100, 256+8000+8000), MinKeys: 20000,
	Run: func(t *rt.T) {
		nc, nr := 256, 100
		if t.Thorough {
			nr = 8000
		}

		switch {
		case t.Idx < nc:
			r := t.Idx

			t.Count("cube slices", 1)

			for g := 0; g < 256; g++ {
				for b := 0; b < 256; b++ {
					checkConv(t, color.NRGBA{uint8(r), uint8(g), uint8(b), uint8(r ^ g ^ b)})

					if r != g || g != b {
						if h := rt.Hash(uint64(r)<<16 | uint64(g)<<8 | uint64(b)); h&63 == 0 {
							t.Key(h)
						}
					}
				}
			}
		case t.Idx < nc+nr:
			if t.Idx == nc {
				for _, r := range grid {
					for _, g := range grid {
						for _, b := range grid {
							for _, a := range alphas {
								checkConv(t, color.NRGBA64{r, g, b, a})
							}
						}
					}
				}
			}

			for i := 0; i < 50000; i++ {
				c := color.NRGBA64{t.Edge16(), t.Edge16(), t.Edge16(), t.Edge16()}

				if t.P(4) { // close to grey
					c.G, c.B = c.R^uint16(t.N(4)), c.R^uint16(t.N(4))
				}

				checkConv(t, c)
				t.Key(rt.Hash(2, uint64(c.R), uint64(c.G), uint64(c.B)))

				if i == 0 {
					t.Sample("%v: HSV %v HSL %v", c, lcolor.RGBToHSV(c), lcolor.RGBToHSL(c))
				}
			}
		default:
			if t.Idx == nc+nr {
				// every hue and the corners of the rest
				for h := 0; h < 65536; h++ {
					for _, s := range []uint16{0, 0x7fff, 0x8000, 0xffff} {
						for _, v := range []uint16{0, 0x7fff, 0x8000, 0xffff} {
							checkBack(t, lcolor.HSVA{H: uint16(h), S: s, V: v, A: uint16(h)})
							checkBack(t, lcolor.HSLA{H: uint16(h), S: s, L: v, A: uint16(h)})
						}
					}
				}

				for _, h := range grid {
					for _, s := range grid {
						for _, v := range grid {
							checkBack(t, lcolor.HSVA{H: h, S: s, V: v, A: 0xffff})
							checkBack(t, lcolor.HSLA{H: h, S: s, L: v, A: 0xffff})
						}
					}
				}
			}

			for i := 0; i < 50000; i++ {
				hsv := gen.RandColour(t.Rng, 13).(lcolor.HSVA)
				hsl := gen.RandColour(t.Rng, 14).(lcolor.HSLA)

				if t.P(3) { // around the sector boundaries
					hsv.H = uint16(t.N(7)*65535/6 + t.R(-2, 2))
					hsl.H = uint16(t.N(7)*65535/6 + t.R(-2, 2))
				}

				checkBack(t, hsv)
				checkBack(t, hsl)
				t.Key(rt.Hash(3, uint64(hsv.H), uint64(hsv.S), uint64(hsv.V)))
				t.Key(rt.Hash(4, uint64(hsl.H), uint64(hsl.S), uint64(hsl.L)))
			}
		}
	},
}

// --- C03 ----------------------------------------------------------------------

var c03 = &rt.Check{
	ID: "C03", Level: "exploration",
	Rule: "random colours of every Go colour type and alpha through the RGB and grey+alpha models and through alpha-palettes of 1 to 1000 opaque entries (clustered, spread, grey, duplicated), with the luminance and the nearest entry computed in floating point from the straight colour. Non-trivial: translucent sources; counted by hash of the source.",
	N:    rt.Cases(1600, 100000), MinKeys: 5000,
	Run: func(t *rt.T) {
		size := 0
		if t.P(8) { // more than an image can use
			size = t.Pick(257, 300, 512, 1000)
		}

		pal := gen.Palette(t.Rng, size)

		deep := t.P(4)
		if deep { // of 16 bits
			for i := range pal {
				pal[i] = []color.Color{
					color.RGBA64{t.Edge16(), t.Edge16(), t.Edge16(), 0xffff},
					color.NRGBA64{t.U16(), t.U16(), t.U16(), 0xffff},
					color.Gray16{t.U16()},
				}[t.N(3)]
			}
		}

		ap := lcolor.AlphaPalette(pal)
		ps := make([]gen.Straight, len(pal))

		for i, c := range pal {
			ps[i] = gen.StraightOf(c)
		}

		for i := 0; i < 3000; i++ {
			c := gen.AnyColour(t.Rng)
			if i%7 == 0 && len(pal) > 0 { // close to a palette entry, translucent
				r, g, b, _ := pal[t.N(len(pal))].RGBA()
				c = color.NRGBA64{uint16(r), uint16(g), uint16(b), t.Edge16()}
			}

			r, g, b, a := c.RGBA()
			s := gen.StraightOf(c)

			if a > 0 && a < 0xffff {
				t.Key(rt.Hash(uint64(r), uint64(g), uint64(b), uint64(a)))
				t.Count("translucent sources", 1)
			}

			t.Eval(3)

			// the straight components can be off by this much, in 1/255
			slack := 0.0
			if a > 0 {
				slack = 2 * 255 / float64(a)
			}

			// RGB
			rc := lcolor.RGBModel.Convert(c)
			rgb, ok := rc.(lcolor.RGB)

			if !ok {
				t.Fail("RGBModel converts %#v to a %T", c, rc)
			}

			for k, v := range [3]uint32{r, g, b} {
				if got := [3]uint8{rgb.R, rgb.G, rgb.B}[k]; math.Abs(float64(got)-float64(v)/257) > 1 {
					t.Fail("RGBModel converts %#v, over black %v, to %v", c, gen.Pre16(c), rgb)
				}
			}

			if again := lcolor.RGBModel.Convert(rgb); again != rc {
				t.Fail("RGBModel converts its own %v to %v", rgb, again)
			}

			if own, ok := c.(lcolor.RGB); ok && rc != color.Color(own) {
				t.Fail("RGBModel changes %v to %v", c, rc)
			}

			// grey+alpha
			gc := lcolor.GrayAlphaModel.Convert(c)
			ga, ok := gc.(lcolor.GrayAlpha)

			if !ok {
				t.Fail("GrayAlphaModel converts %#v to a %T", c, gc)
			}

			if math.Abs(float64(ga.A)-float64(a)/257) > 1 || a == 0xffff && ga.A != 255 || a == 0 && ga.A != 0 {
				t.Fail("GrayAlphaModel converts %#v to %v, losing the alpha %d", c, ga, a)
			}

			straight := a > 0

			switch c.(type) { // have a colour even without alpha
			case color.NRGBA, color.NRGBA64, lcolor.GrayAlpha, lcolor.HSVA, lcolor.HSLA:
				straight = true
			}

			if straight {
				if y := 255 * (0.299*s.R + 0.587*s.G + 0.114*s.B); math.Abs(float64(ga.Y)-y) > 1.1+slack {
					t.Fail("GrayAlphaModel converts %#v to %v, want a luminance of %.2f", c, ga, y)
				}
			}

			if again := lcolor.GrayAlphaModel.Convert(ga); again != gc {
				t.Fail("GrayAlphaModel converts its own %v to %v", ga, again)
			}

			if own, ok := c.(lcolor.GrayAlpha); ok && gc != color.Color(own) {
				t.Fail("GrayAlphaModel changes %v to %v", c, gc)
			}

			// alpha palette
			pc := ap.Convert(c)
			if _, _, _, pa := pc.RGBA(); absd(uint16(pa), uint16(a)) > 1 {
				t.Fail("AlphaPalette converts %#v to %#v, losing the alpha %d", c, pc, a)
			}

			if bad := validColour(pc); bad != "" {
				t.Fail("AlphaPalette converts %#v to %#v, which %s", c, pc, bad)
			}

			idx := ap.Index(c)
			if idx < 0 || idx >= len(pal) {
				t.Fail("AlphaPalette.Index(%#v) = %d of %d", c, idx, len(pal))
			}

			if straight {
				best := math.Inf(1)

				for _, p := range ps {
					best = math.Min(best, dist(s, p))
				}

				e := (slack + 0.05) / 255 * 2
				if d := dist(s, ps[idx]); d > best+e {
					t.Fail("AlphaPalette.Index(%#v) = %d, at a distance of %.4f, the nearest is at %.4f", c, idx, d, best)
				}

				if _, _, _, pa := pc.RGBA(); pa > 0x1000 {
					if d := dist(gen.StraightOf(pc), ps[idx]); d > 0.002 {
						t.Fail("AlphaPalette converts %#v to %#v, which is not entry %d %v", c, pc, idx, pal[idx])
					}
				}
			}

			// entries of 16 bits may be alike but for the last of them, which is
			// below what color.Palette tells apart
			if again := ap.Convert(pc); again != pc && !(deep && nextTo(again, pc)) {
				t.Fail("AlphaPalette converts its own %#v to %#v", pc, again)
			}

			if i == 0 {
				t.Sample("%#v: RGB %v, grey+alpha %v, entry %d of %d", c, rgb, ga, idx, len(pal))
			}
		}
	},
}

func nextTo(a, b color.Color) bool {
	p, q := straight64(a), straight64(b)
	if n, ok := a.(color.NRGBA64); ok {
		p = n
	}

	if n, ok := b.(color.NRGBA64); ok {
		q = n
	}

	return p.A == q.A && absd(p.R, q.R) <= 1 && absd(p.G, q.G) <= 1 && absd(p.B, q.B) <= 1
}

func dist(a, b gen.Straight) float64 {
	return math.Sqrt((a.R-b.R)*(a.R-b.R) + (a.G-b.G)*(a.G-b.G) + (a.B-b.B)*(a.B-b.B))
}
