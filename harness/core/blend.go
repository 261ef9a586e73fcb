package main

import (
	"image/color"
	"math"

	"verif/gen"
	"verif/rt"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
)

var grid = []uint16{0, 1, 2, 0x101, 0x1000, 0x3fff, 0x5555, 0x7ffd, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xaaaa, 0xbf00, 0xfefe, 0xfffd, 0xfffe, 0xffff}

var alphas = []uint16{0, 1, 0x101, 0x4000, 0x7fff, 0x8000, 0xc0c0, 0xfefe, 0xfffe, 0xffff}

// checkBlend compares one blend with the reference.
func checkBlend(t *rt.T, m limage.Composite, b, tp color.Color, tol float64) {
	got := m.Composite(b, tp)
	bs, ts := gen.StraightOf(b), gen.StraightOf(tp)
	want := gen.Blend(m, bs, ts)

	t.Eval(1)

	if d := gen.PremulDiff(got, want); d > tol {
		t.Fail("%s: blending top %#v on bottom %#v gives %v (%T), premultiplied %v; want %v, off by %.1f", m, tp, b, got, got, gen.Pre16(got), want.Premul(), d)
	}

	// the straight colour too, where the alpha leaves it any meaning
	if want.A > 0.2 {
		g := gen.StraightOf(got)
		d := math.Max(math.Abs(g.R-want.R), math.Max(math.Abs(g.G-want.G), math.Abs(g.B-want.B))) * 65535

		if d > tol*1.5 {
			t.Fail("%s: blending top %#v on bottom %#v gives %v, straight %v; want %v, off by %.1f", m, tp, b, got, g, want, d)
		}
	}

	exact(t, m, b, tp, bs, ts, want, got)

	if bs.A > 0 && ts.A > 0 {
		p, q := gen.Pre16(b), gen.Pre16(tp)
		h := rt.Hash(uint64(m), uint64(p[0])<<48|uint64(p[1])<<32|uint64(p[2])<<16|uint64(p[3]), uint64(q[0])<<48|uint64(q[1])<<32|uint64(q[2])<<16|uint64(q[3]))

		if h&7 == 0 {
			t.Key(h)
		}
	}

	if bs.A > 0 && bs.A < 1 && ts.A > 0 && ts.A < 1 {
		t.Count("both_translucent", 1)
	}
}

// exact checks what no rounding can change: alphas that are whole, opaque and
// transparent sides, and full and no intensity.
func exact(t *rt.T, m limage.Composite, b, tp color.Color, bs, ts, want gen.Straight, got color.Color) {
	g := gen.Pre16(got)
	whole := func(x float64) (uint32, bool) {
		r := math.Round(x * 65535)

		return uint32(r), math.Abs(x*65535-r) < 1e-6
	}
	is := func(c color.Color, why string) {
		if !gen.SameColour(got, c) {
			t.Fail("%s: blending top %#v on bottom %#v gives %v, premultiplied %v, want %v exactly: %s", m, tp, b, got, g, gen.Pre16(c), why)
		}
	}

	if a, ok := whole(want.A); ok && uint32(g[3]) != a {
		t.Fail("%s: blending top %#v on bottom %#v gives an alpha of %d, want exactly %d", m, tp, b, g[3], a)
	}

	_, separable := gen.Separable[m]
	painted := separable

	for _, h := range gen.HueModes {
		painted = painted || h == m
	}

	normal := !painted

	for _, o := range append([]limage.Composite{limage.CompositeBehind}, gen.AlphaModes[1:]...) {
		normal = normal && o != m
	}

	switch {
	case painted && (ts.A == 0 || bs.A == 0), (normal || m == limage.CompositePlus || m == limage.CompositeSourceAtop) && ts.A == 0, m == limage.CompositeBehind:
		is(b, "the bottom is unchanged")
	case (normal || m == limage.CompositePlus || m == limage.CompositeDestinationAtop) && bs.A == 0, normal && ts.A == 1:
		is(tp, "only the top shows")
	}

	if separable && bs.A == 1 && ts.A == 1 && m != limage.CompositeGrainExtract && m != limage.CompositeGrainMerge {
		x, y, w := [3]float64{bs.R, bs.G, bs.B}, [3]float64{ts.R, ts.G, ts.B}, [3]float64{want.R, want.G, want.B}

		for k := range w {
			if x[k] > 0 && x[k] < 1 && y[k] > 0 && y[k] < 1 {
				continue
			}

			if v, ok := whole(w[k]); ok && uint32(g[k]) != v {
				t.Fail("%s: blending top %#v on bottom %#v gives %v, want %d exactly in channel %d", m, tp, b, g, v, k)
			}
		}

		t.Count("opaque_pairs", 1)
	}
}

func blendCase(t *rt.T, modes []limage.Composite, n int, tol float64) {
	m := modes[t.Idx%len(modes)]
	block := t.Idx / len(modes)

	t.Count("mode "+m.String(), 1)

	if block == 0 {
		// every pair of boundary values in one channel with every pair of
		// boundary alphas, the other channels drawn at random
		for _, x := range grid {
			for _, y := range grid {
				for _, a := range alphas {
					for _, c := range alphas {
						b := [3]uint16{t.Edge16(), t.Edge16(), t.Edge16()}
						p := [3]uint16{t.Edge16(), t.Edge16(), t.Edge16()}
						k := t.N(3)
						b[k], p[k] = x, y

						checkBlend(t, m, color.NRGBA64{b[0], b[1], b[2], a}, color.NRGBA64{p[0], p[1], p[2], c}, tol)
					}
				}
			}
		}

		return
	}

	for i := 0; i < n; i++ {
		b, p := gen.StraightColour(t.Rng), gen.StraightColour(t.Rng)

		checkBlend(t, m, b, p, tol)

		if i == 0 {
			t.Sample("%s: bottom %#v top %#v -> %v", m, b, p, m.Composite(b, p))
		}
	}
}

var c04 = &rt.Check{
	ID: "C04", Level: "exploration",
	Rule:    "pairs of straight colours (8/16-bit, RGB, grey+alpha): all pairs of 18 boundary values per channel x all pairs of 10 boundary alphas per mode, then random pairs rich in boundary values; each result is compared with the formula in floating point. Non-trivial: both alphas above 0; one in 8 of them counted by hash of mode and colours.",
	N:       rt.Cases(15*65, 15*2057),
	MinKeys: 10000,
	Run:     func(t *rt.T) { blendCase(t, gen.SeparableModes, 30000, 6) },
}

var c05 = &rt.Check{
	ID: "C05", Level: "exploration",
	Rule:    "as C04, for the five HSV/HSL modes, against the definitions in floating point. Non-trivial: both alphas above 0; one in 8 of them counted by hash of mode and colours.",
	N:       rt.Cases(5*129, 5*4097),
	MinKeys: 10000,
	Run: func(t *rt.T) {
		blendCase(t, gen.HueModes, 40000, 16)

		if t.Idx/5 == 1 { // grey tops and bottoms, pure hues, near-greys
			m := gen.HueModes[t.Idx%5]

			for i := 0; i < 100000; i++ {
				pick := func() color.NRGBA64 {
					y := t.Edge16()
					c := color.NRGBA64{y, y, y, t.Edge16()}

					switch t.N(4) {
					case 0:
						c.R ^= uint16(t.N(3))
					case 1:
						c.G ^= uint16(t.N(3))
						c.B ^= uint16(t.N(2))
					case 2:
						c.R, c.G, c.B = 0xffff*uint16(t.N(2)), 0xffff*uint16(t.N(2)), 0xffff*uint16(t.N(2))
					}

					return c
				}

				checkBlend(t, m, pick(), pick(), 16)
			}
		}
	},
}

var c06 = &rt.Check{
	ID: "C06", Level: "exploration",
	Rule: "the alpha modes and every mode without a formula (14 defined, plus undefined values) on boundary grids and random pairs against the Porter-Duff formulas in floating point; Behind on opaque bottoms; Dissolve by counting 40000 draws per pair of alphas. Non-trivial: both alphas above 0; one in 8 counted by hash of mode and colours.",
	Assumptions: []string{
		"Dissolve draws are independent: with 40000 draws a frequency more than 0.02 off is taken as wrong (8 standard deviations)",
	},
	N:       rt.Cases(6*65+14*10+20+60, 6*4097+14*200+400+2000),
	MinKeys: 10000,
	Run: func(t *rt.T) {
		na, nf, nu := 6*65, 14*10, 20
		if t.Thorough {
			na, nf, nu = 6*4097, 14*200, 400
		}

		i := t.Idx

		switch {
		case i < na:
			blendCase(t, gen.AlphaModes, 30000, 6)
		case i < na+nf:
			m := limage.CompositeColorErase + limage.Composite((i-na)%14)

			for j := 0; j < 20000; j++ {
				checkBlend(t, m, gen.StraightColour(t.Rng), gen.StraightColour(t.Rng), 6)
			}

			t.Count("fallback mode "+m.String(), 1)
		case i < na+nf+nu:
			for j := 0; j < 20000; j++ {
				m := limage.Composite(gen.NModes + t.N(100))
				if t.B() {
					m = limage.Composite(t.U32() | uint32(t.N(2))<<31)
				}

				if int(m) < gen.NModes {
					m = 0xffffffff
				}

				checkBlend(t, m, gen.StraightColour(t.Rng), gen.StraightColour(t.Rng), 6)
				t.Count("undefined modes", 1)
			}
			// Behind leaves an opaque bottom alone
			for j := 0; j < 5000; j++ {
				b := gen.AnyColour(t.Rng)
				if _, _, _, a := b.RGBA(); a != 0xffff {
					continue
				}

				p := gen.AnyColour(t.Rng)
				if got := limage.CompositeBehind.Composite(b, p); gen.Diff16(got, b) > 2 {
					t.Fail("Behind: top %#v on opaque bottom %#v gives %v", p, b, got)
				}

				t.Eval(1)
			}
		default:
			dissolve(t)
		}
	},
}

func dissolve(t *rt.T) {
	b, p := gen.StraightColour(t.Rng), gen.StraightColour(t.Rng)
	bn, pn := straight64(b), straight64(p)

	if t.N(3) != 0 {
		pn.A = []uint16{0, 1, 0x101, 0x2000, 0x4000, 0x8000, 0xc000, 0xfefe, 0xfffe, 0xffff}[t.Idx%10]
	}

	if t.B() {
		bn.A = []uint16{0, 0x1000, 0xffff}[t.N(3)]
	}
	// keep the two outcomes apart
	bn.R, pn.R = 0x1000, 0xe000
	full := pn
	full.A = 0xffff

	const n = 40000

	tops := 0

	for i := 0; i < n; i++ {
		got := limage.CompositeDissolve.Composite(bn, pn)

		switch {
		case gen.SameColour(got, full):
			tops++
		case gen.SameColour(got, bn):
		default:
			t.Fail("Dissolve: top %v on bottom %v gives %v, which is neither", pn, bn, got)
		}
	}

	t.Eval(n)
	t.Count("dissolve draws", n)
	t.Count("dissolve tops", tops)
	t.Sample("Dissolve: bottom %v top %v: top shown %d times of %d", bn, pn, tops, n)
	t.Key(rt.Hash(1, uint64(pn.A), uint64(bn.A)))

	want := float64(pn.A) / 65535

	if math.Abs(float64(tops)/n-want) > 0.02 || (pn.A == 0 && tops > 0) || (pn.A == 0xffff && tops < n) {
		t.Fail("Dissolve: top %v on bottom %v shown %d times of %d, want a share of %.4f", pn, bn, tops, n, want)
	}
}

func straight64(c color.Color) color.NRGBA64 {
	s := gen.StraightOf(c)

	return color.NRGBA64{uint16(s.R*65535 + 0.5), uint16(s.G*65535 + 0.5), uint16(s.B*65535 + 0.5), uint16(s.A*65535 + 0.5)}
}

// exactForms are different types carrying exactly the 8-bit colour c.
func exactForms(t *rt.T, c color.NRGBA) []color.Color {
	w := func(x uint8) uint16 { return uint16(x) * 0x101 }
	f := []color.Color{c, color.NRGBA64{w(c.R), w(c.G), w(c.B), w(c.A)}}

	if c.A == 0xff {
		f = append(f, color.RGBA{c.R, c.G, c.B, 0xff}, color.RGBA64{w(c.R), w(c.G), w(c.B), 0xffff},
			lcolor.RGB{R: c.R, G: c.G, B: c.B}, gen.Custom{w(c.R), w(c.G), w(c.B), 0xffff}, color.CMYK{C: 255 - c.R, M: 255 - c.G, Y: 255 - c.B})
	}

	if c.R == c.G && c.G == c.B {
		f = append(f, lcolor.GrayAlpha{Y: c.R, A: c.A}, lcolor.HSVA{V: w(c.R), A: w(c.A), H: t.U16()}, lcolor.HSLA{L: w(c.R), A: w(c.A), H: t.U16()})

		if c.A == 0xff {
			f = append(f, color.Gray{c.R}, color.Gray16{w(c.R)}, color.YCbCr{Y: c.R, Cb: 128, Cr: 128})
		}

		if c.R == 0xff {
			f = append(f, color.Alpha{c.A}, color.Alpha16{w(c.A)})
		}
	}

	if c.A == 0 {
		f = append(f, color.RGBA{}, color.RGBA64{}, color.Alpha{}, color.Alpha16{}, gen.Custom{})
	}

	return f
}

var c07 = &rt.Check{
	ID: "C07", Level: "exploration",
	Rule: "for every mode except Dissolve, 8-bit colours written in every Go colour type that carries them exactly (up to 15 types) must blend alike (within 3/65535); premultiplied and rounded forms must lie within the hull of the formula over the rounding of the form; every mode value with every kind of colour, also invalid ones, must not panic, and repeat. Non-trivial: pairs with at least two forms each and both alphas above 0.",
	N:    rt.Cases(320, 10000), MinKeys: 5000,
	Run: func(t *rt.T) {
		for i := 0; i < 300; i++ {
			mk := func() color.NRGBA {
				c := color.NRGBA{t.Edge8(), t.Edge8(), t.Edge8(), t.Edge8()}

				if t.P(2) {
					c.A = 0xff
				}

				if t.P(3) {
					c.G, c.B = c.R, c.R

					if t.P(3) {
						c.R, c.G, c.B = 255, 255, 255
					}
				}

				return c
			}
			b, p := mk(), mk()
			bf, pf := exactForms(t, b), exactForms(t, p)

			for m := limage.Composite(0); int(m) < gen.NModes+1; m++ {
				if m == limage.CompositeDissolve {
					continue
				}

				first := m.Composite(b, p)

				for _, x := range bf {
					for _, y := range pf {
						got := m.Composite(x, y)
						t.Eval(1)

						if gen.Diff16(got, first) > 3 {
							t.Fail("%s: top %#v on bottom %#v gives %v but the same colours as %#v and %#v give %v", m, p, b, gen.Pre16(first), y, x, gen.Pre16(got))
						}

						if again := m.Composite(x, y); !gen.SameColour(got, again) {
							t.Fail("%s: top %#v on bottom %#v gives %v, then %v", m, y, x, got, again)
						}
					}
				}

				t.Count("form pairs", len(bf)*len(pf))
			}

			if b.A > 0 && p.A > 0 {
				t.Key(rt.Hash(uint64(b.R)<<24|uint64(b.G)<<16|uint64(b.B)<<8|uint64(b.A), uint64(p.R)<<24|uint64(p.G)<<16|uint64(p.B)<<8|uint64(p.A)))
			}

			if i == 0 {
				t.Sample("%v on %v in %d x %d forms", p, b, len(pf), len(bf))
			}
		}

		for i := 0; i < 3000; i++ {
			rounded(t)
		}
		// nothing panics
		for i := 0; i < 20000; i++ {
			any := func() color.Color {
				if t.P(4) { // not a valid colour
					return gen.Custom{t.Edge16(), t.Edge16(), t.Edge16(), t.Edge16()}
				} else if t.P(8) {
					return color.RGBA{t.Edge8(), t.Edge8(), t.Edge8(), t.Edge8()}
				}

				return gen.AnyColour(t.Rng)
			}
			b, p := any(), any()

			m := limage.Composite(t.N(gen.NModes + 4))
			if t.P(10) {
				m = limage.Composite(t.U32())
			}

			t.Guard("blending", func() {
				t.Describe("%s (%d), bottom %#v, top %#v", m, uint32(m), b, p)
				m.Composite(b, p).RGBA()
			})
			t.Count("panic probes", 1)
		}
	},
}

// rounded blends premultiplied forms, whose straight colour is only known to
// within the rounding of the form.
func rounded(t *rt.T) {
	kinds := []int{2, 3, 15, 8, 9, 10, 13, 14}
	b, p := gen.RandColour(t.Rng, kinds[t.N(len(kinds))]), gen.RandColour(t.Rng, kinds[t.N(len(kinds))])
	_, _, _, ba := b.RGBA()
	_, _, _, pa := p.RGBA()

	if ba < 0x1000 || pa < 0x1000 {
		return
	}

	bs, ps := gen.StraightOf(b), gen.StraightOf(p)
	modes := append(append([]limage.Composite{}, gen.SeparableModes...), gen.AlphaModes...)
	m := modes[t.N(len(modes))]

	// perturb the inputs by the rounding of the form
	eb, ep := 3/float64(ba), 3/float64(pa)

	if ep > 1e-3 {
		ep = 1e-3
	}

	var lo, hi [4]float64

	for i := range lo {
		lo[i], hi[i] = 1e9, -1e9
	}

	shift := func(s gen.Straight, d float64) gen.Straight {
		f := func(x float64) float64 { return math.Max(0, math.Min(1, x+d)) }

		return gen.Straight{f(s.R), f(s.G), f(s.B), s.A}
	}

	for _, x := range []float64{-eb, 0, eb} {
		for _, y := range []float64{-ep, 0, ep} {
			w := gen.Blend(m, shift(bs, x), shift(ps, y)).Premul()

			for i := range w {
				lo[i], hi[i] = math.Min(lo[i], w[i]), math.Max(hi[i], w[i])
			}
		}
	}

	got := m.Composite(b, p)
	g := gen.Pre16(got)

	t.Eval(1)
	t.Count("rounded forms", 1)

	for i := range g {
		if float64(g[i]) < lo[i]-10 || float64(g[i]) > hi[i]+10 {
			t.Fail("%s: top %#v on bottom %#v gives %v, want between %v and %v", m, p, b, g, lo, hi)
		}
	}
}

var modeNames = []string{
	"Normal", "Dissolve", "Behind", "Multiply", "Screen", "Overlay", "Difference", "Addition", "Subtract",
	"Darken Only", "Lighten Only", "Hue", "Saturation", "Color", "Value", "Divide", "Dodge", "Burn", "Hard Light",
	"Soft Light", "Grain Extract", "Grain Merge", "Luminosity", "Plus", "Destination In", "Destination Out",
	"Source Atop", "Destination Atop", "Color Erase", "Chroma", "Lightness", "Vivid Light", "Pin Light",
	"Linear Light", "Hard Mix", "Exclusion", "Linear Burn", "Luminance", "Erase", "Merge", "Split", "Pass Through",
}

var modeConsts = []limage.Composite{
	limage.CompositeNormal, limage.CompositeDissolve, limage.CompositeBehind, limage.CompositeMultiply,
	limage.CompositeScreen, limage.CompositeOverlay, limage.CompositeDifference, limage.CompositeAddition,
	limage.CompositeSubtract, limage.CompositeDarkenOnly, limage.CompositeLightenOnly, limage.CompositeHue,
	limage.CompositeSaturation, limage.CompositeColor, limage.CompositeValue, limage.CompositeDivide,
	limage.CompositeDodge, limage.CompositeBurn, limage.CompositeHardLight, limage.CompositeSoftLight,
	limage.CompositeGrainExtract, limage.CompositeGrainMerge, limage.CompositeLuminosity, limage.CompositePlus,
	limage.CompositeDestinationIn, limage.CompositeDestinationOut, limage.CompositeSourceAtop,
	limage.CompositeDestinationAtop, limage.CompositeColorErase, limage.CompositeChroma, limage.CompositeLightness,
	limage.CompositeVividLight, limage.CompositePinLight, limage.CompositeLinearLight, limage.CompositeHardMix,
	limage.CompositeExclusion, limage.CompositeLinearBurn, limage.CompositeLuminance, limage.CompositeErase,
	limage.CompositeMerge, limage.CompositeSplit, limage.CompositePassThrough,
}

var c30 = &rt.Check{
	ID: "C30", Level: "exploration",
	Rule: "the name of every defined mode, and of undefined values: all up to 2^16, all powers of two and their neighbours, and random 32-bit values. Non-trivial: distinct mode values.",
	N:    rt.Cases(64, 2000), MinKeys: 42,
	Run: func(t *rt.T) {
		if t.Idx == 0 {
			seen := map[string]limage.Composite{}

			for i, m := range modeConsts {
				n := m.String()
				t.Eval(1)
				t.Key(rt.Hash(uint64(m)))

				if int(m) != i {
					t.Report("", "mode constant %d has the value %d", i, m)
				}

				if n == "" {
					t.Report("", "mode %d has no name", m)
				}

				if o, ok := seen[n]; ok {
					t.Report("", "modes %d and %d are both named %q", o, m, n)
				}

				seen[n] = m

				if i < len(modeNames) && n != modeNames[i] {
					t.Report("", "mode %d is named %q, want %q", m, n, modeNames[i])
				}
			}

			t.Sample("%d names: %v", len(seen), seen)
		}

		probe := func(v uint32) {
			if int64(v) < int64(gen.NModes) {
				return
			}

			t.Eval(1)
			t.Key(rt.Hash(uint64(v)))
			t.Guard("String", func() {
				if n := limage.Composite(v).String(); n != "Normal" {
					t.Fail("the undefined mode %d is named %q", v, n)
				}
			})
		}

		if t.Idx == 1 {
			for v := uint32(0); v < 1<<16; v++ {
				probe(v)
			}

			for i := uint(0); i < 32; i++ {
				for d := uint32(0); d < 200; d++ {
					probe(1<<i + d)
					probe(1<<i - d)
				}
			}
		}

		for i := 0; i < 100000; i++ {
			probe(t.U32() ^ uint32(t.N(2))<<31)
		}
	},
}
