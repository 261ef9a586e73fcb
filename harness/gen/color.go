// Package gen generates the inputs and holds the reference models that do not
// share code with the library.
package gen

import (
	"image/color"
	"math"

	"verif/rt"

	"vimagination.zapto.org/limage/lcolor"
)

// Straight is a straight (not premultiplied) colour with components in [0,1].
type Straight struct{ R, G, B, A float64 }

func S64(c color.NRGBA64) Straight {
	return Straight{float64(c.R) / 65535, float64(c.G) / 65535, float64(c.B) / 65535, float64(c.A) / 65535}
}

// StraightOf gives the straight form of any colour, exactly for the straight
// types and from the premultiplied components for the others.
func StraightOf(c color.Color) Straight {
	switch c := c.(type) {
	case color.NRGBA:
		return Straight{float64(c.R) / 255, float64(c.G) / 255, float64(c.B) / 255, float64(c.A) / 255}
	case color.NRGBA64:
		return S64(c)
	case lcolor.GrayAlpha:
		y := float64(c.Y) / 255

		return Straight{y, y, y, float64(c.A) / 255}
	case lcolor.HSVA:
		r, g, b := HSVToRGB(float64(c.H)/65535, float64(c.S)/65535, float64(c.V)/65535)

		return Straight{r, g, b, float64(c.A) / 65535}
	case lcolor.HSLA:
		r, g, b := HSLToRGB(float64(c.H)/65535, float64(c.S)/65535, float64(c.L)/65535)

		return Straight{r, g, b, float64(c.A) / 65535}
	}

	r, g, b, a := c.RGBA()
	if a == 0 {
		return Straight{}
	}

	return Straight{math.Min(1, float64(r)/float64(a)), math.Min(1, float64(g)/float64(a)), math.Min(1, float64(b)/float64(a)), float64(a) / 65535}
}

// Premul gives the premultiplied components scaled to 65535.
func (s Straight) Premul() [4]float64 {
	k := s.A * 65535

	return [4]float64{s.R * k, s.G * k, s.B * k, k}
}

// Pre16 is the premultiplied form of a colour.
func Pre16(c color.Color) [4]uint32 {
	r, g, b, a := c.RGBA()

	return [4]uint32{r, g, b, a}
}

// PremulDiff is the largest difference of any premultiplied component.
func PremulDiff(c color.Color, want Straight) float64 {
	p := Pre16(c)
	w := want.Premul()
	d := 0.0

	for i := range p {
		d = math.Max(d, math.Abs(float64(p[i])-w[i]))
	}

	return d
}

// SameColour compares two colours exactly as seen.
func SameColour(a, b color.Color) bool { return Pre16(a) == Pre16(b) }

// Diff16 is the largest difference of the premultiplied components.
func Diff16(a, b color.Color) int {
	p, q := Pre16(a), Pre16(b)
	d := 0

	for i := range p {
		e := int(p[i]) - int(q[i])
		if e < 0 {
			e = -e
		}

		if e > d {
			d = e
		}
	}

	return d
}

// --- HSV and HSL by definition; hue in [0,1) of the circle -----------------

func hueOf(r, g, b, mx, c float64) float64 {
	if c == 0 {
		return 0
	}

	var h float64

	switch mx {
	case r:
		h = math.Mod((g-b)/c+6, 6)
	case g:
		h = (b-r)/c + 2
	default:
		h = (r-g)/c + 4
	}

	return h / 6
}

func RGBToHSV(s Straight) (h, sat, v float64) {
	mx := math.Max(s.R, math.Max(s.G, s.B))
	mn := math.Min(s.R, math.Min(s.G, s.B))
	h = hueOf(s.R, s.G, s.B, mx, mx-mn)

	if mx > 0 {
		sat = (mx - mn) / mx
	}

	return h, sat, mx
}

func RGBToHSL(s Straight) (h, sat, l float64) {
	mx := math.Max(s.R, math.Max(s.G, s.B))
	mn := math.Min(s.R, math.Min(s.G, s.B))
	h = hueOf(s.R, s.G, s.B, mx, mx-mn)
	l = (mx + mn) / 2

	if mx > mn {
		sat = math.Min(1, (mx-mn)/(1-math.Abs(2*l-1)))
	}

	return h, sat, l
}

func hcm(h, c, m float64) (r, g, b float64) {
	h *= 6
	if h >= 6 {
		h -= 6
	}

	x := c * (1 - math.Abs(math.Mod(h, 2)-1))

	switch int(h) {
	case 0:
		r, g = c, x
	case 1:
		r, g = x, c
	case 2:
		g, b = c, x
	case 3:
		g, b = x, c
	case 4:
		r, b = x, c
	default:
		r, b = c, x
	}

	return r + m, g + m, b + m
}

func HSVToRGB(h, s, v float64) (r, g, b float64) {
	c := v * s

	return hcm(h, c, v-c)
}

func HSLToRGB(h, s, l float64) (r, g, b float64) {
	c := (1 - math.Abs(2*l-1)) * s

	return hcm(h, c, l-c/2)
}

// --- colours of every type --------------------------------------------------

// Custom is a colour type the library cannot know.
type Custom struct{ R, G, B, A uint16 }

func (c Custom) RGBA() (r, g, b, a uint32) {
	return uint32(c.R), uint32(c.G), uint32(c.B), uint32(c.A)
}

// NTypes is the number of kinds of colour RandColour makes.
const NTypes = 17

// RandColour makes a random valid colour of the given kind.
func RandColour(r *rt.Rng, kind int) color.Color {
	pm8 := func() (uint8, uint8, uint8, uint8) {
		a := uint32(r.Edge8())
		f := func() uint8 { return uint8(uint32(r.Edge8()) * a / 255) }

		return f(), f(), f(), uint8(a)
	}
	pm16 := func() (uint16, uint16, uint16, uint16) {
		a := uint32(r.Edge16())
		f := func() uint16 { return uint16(uint32(r.Edge16()) * a / 65535) }

		return f(), f(), f(), uint16(a)
	}

	switch kind {
	case 0:
		return color.NRGBA{r.Edge8(), r.Edge8(), r.Edge8(), r.Edge8()}
	case 1:
		return color.NRGBA64{r.Edge16(), r.Edge16(), r.Edge16(), r.Edge16()}
	case 2:
		a, b, c, d := pm8()

		return color.RGBA{a, b, c, d}
	case 3:
		a, b, c, d := pm16()

		return color.RGBA64{a, b, c, d}
	case 4:
		return color.Gray{r.Edge8()}
	case 5:
		return color.Gray16{r.Edge16()}
	case 6:
		return color.Alpha{r.Edge8()}
	case 7:
		return color.Alpha16{r.Edge16()}
	case 8:
		return color.CMYK{r.Edge8(), r.Edge8(), r.Edge8(), r.Edge8()}
	case 9:
		return color.YCbCr{r.Edge8(), r.Edge8(), r.Edge8()}
	case 10:
		return color.NYCbCrA{YCbCr: color.YCbCr{Y: r.Edge8(), Cb: r.Edge8(), Cr: r.Edge8()}, A: r.Edge8()}
	case 11:
		return lcolor.RGB{R: r.Edge8(), G: r.Edge8(), B: r.Edge8()}
	case 12:
		return lcolor.GrayAlpha{Y: r.Edge8(), A: r.Edge8()}
	case 13:
		return lcolor.HSVA{H: r.Edge16(), S: r.Edge16(), V: r.Edge16(), A: r.Edge16()}
	case 14:
		return lcolor.HSLA{H: r.Edge16(), S: r.Edge16(), L: r.Edge16(), A: r.Edge16()}
	case 15:
		a, b, c, d := pm16()

		return Custom{a, b, c, d}
	}

	y := r.Edge16() // a grey

	return color.NRGBA64{y, y, y, r.Edge16()}
}

// AnyColour makes a colour of a random kind.
func AnyColour(r *rt.Rng) color.Color { return RandColour(r, r.N(NTypes)) }

// StraightColour makes a colour whose straight form is exact.
func StraightColour(r *rt.Rng) color.Color {
	return RandColour(r, r.Pick(0, 0, 1, 1, 1, 11, 12, 16))
}
