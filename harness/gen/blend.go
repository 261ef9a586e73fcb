package gen

import (
	"math"

	"vimagination.zapto.org/limage"
)

// Separable holds the formula of each separable mode, b the bottom and t the
// top channel.
var Separable = map[limage.Composite]func(b, t float64) float64{
	limage.CompositeMultiply:    func(b, t float64) float64 { return b * t },
	limage.CompositeScreen:      func(b, t float64) float64 { return 1 - (1-b)*(1-t) },
	limage.CompositeOverlay:     overlay,
	limage.CompositeSoftLight:   overlay,
	limage.CompositeDifference:  func(b, t float64) float64 { return math.Abs(b - t) },
	limage.CompositeAddition:    func(b, t float64) float64 { return b + t },
	limage.CompositeSubtract:    func(b, t float64) float64 { return b - t },
	limage.CompositeDarkenOnly:  math.Min,
	limage.CompositeLightenOnly: math.Max,
	limage.CompositeDivide: func(b, t float64) float64 {
		if b == 0 {
			return 0
		}

		return b / t
	},
	limage.CompositeDodge: func(b, t float64) float64 {
		if b == 0 {
			return 0
		}

		return b / (1 - t)
	},
	limage.CompositeBurn: func(b, t float64) float64 {
		if b == 1 {
			return 1
		}

		return 1 - (1-b)/t
	},
	limage.CompositeHardLight: func(b, t float64) float64 {
		if t < 0.5 {
			return 2 * b * t
		}

		return 1 - 2*(1-b)*(1-t)
	},
	limage.CompositeGrainExtract: func(b, t float64) float64 { return b - t + 0.5 },
	limage.CompositeGrainMerge:   func(b, t float64) float64 { return b + t - 0.5 },
}

// SeparableModes in order.
var SeparableModes = []limage.Composite{
	limage.CompositeMultiply, limage.CompositeScreen, limage.CompositeOverlay, limage.CompositeDifference,
	limage.CompositeAddition, limage.CompositeSubtract, limage.CompositeDarkenOnly, limage.CompositeLightenOnly,
	limage.CompositeDivide, limage.CompositeDodge, limage.CompositeBurn, limage.CompositeHardLight,
	limage.CompositeSoftLight, limage.CompositeGrainExtract, limage.CompositeGrainMerge,
}

// HueModes are those that work on HSV or HSL.
var HueModes = []limage.Composite{
	limage.CompositeHue, limage.CompositeSaturation, limage.CompositeColor, limage.CompositeValue, limage.CompositeLuminosity,
}

// AlphaModes are the alpha compositing modes with a formula.
var AlphaModes = []limage.Composite{
	limage.CompositeNormal, limage.CompositePlus, limage.CompositeDestinationIn, limage.CompositeDestinationOut,
	limage.CompositeSourceAtop, limage.CompositeDestinationAtop,
}

// NModes is the number of defined modes.
const NModes = int(limage.CompositePassThrough) + 1

func overlay(b, t float64) float64 { return (1-t)*b*b + t*(1-(1-b)*(1-b)) }

func clamp01(x float64) float64 {
	if x != x {
		return 0
	}

	return math.Max(0, math.Min(1, x))
}

// Blend is the reference for every mode except Dissolve.
func Blend(m limage.Composite, b, t Straight) Straight {
	if f, ok := Separable[m]; ok {
		return paint(b, Straight{clamp01(f(b.R, t.R)), clamp01(f(b.G, t.G)), clamp01(f(b.B, t.B)), t.A})
	}

	switch m {
	case limage.CompositeHue:
		if t.R == t.G && t.G == t.B {
			return b.norm()
		}

		h, _, _ := RGBToHSV(t)
		_, s, v := RGBToHSV(b)

		return paint(b, rgb(HSVToRGB(h, s, v)).alpha(t.A))
	case limage.CompositeSaturation:
		_, s, _ := RGBToHSV(t)
		h, _, v := RGBToHSV(b)

		return paint(b, rgb(HSVToRGB(h, s, v)).alpha(t.A))
	case limage.CompositeValue:
		_, _, v := RGBToHSV(t)
		h, s, _ := RGBToHSV(b)

		return paint(b, rgb(HSVToRGB(h, s, v)).alpha(t.A))
	case limage.CompositeColor:
		h, s, _ := RGBToHSL(t)
		_, _, l := RGBToHSL(b)

		return paint(b, rgb(HSLToRGB(h, s, l)).alpha(t.A))
	case limage.CompositeLuminosity:
		h, s, _ := RGBToHSL(b)
		_, _, l := RGBToHSL(t)

		return paint(b, rgb(HSLToRGB(h, s, l)).alpha(t.A))
	case limage.CompositeBehind:
		return b.norm()
	case limage.CompositePlus:
		a := b.A + t.A
		if a == 0 {
			return Straight{}
		}

		o := math.Min(1, a)
		f := func(x, y float64) float64 { return math.Min(1, x*b.A+y*t.A) / o }

		return Straight{f(b.R, t.R), f(b.G, t.G), f(b.B, t.B), o}
	case limage.CompositeDestinationIn:
		b.A *= t.A

		return b
	case limage.CompositeDestinationOut:
		b.A *= 1 - t.A

		return b
	case limage.CompositeSourceAtop:
		f := func(x, y float64) float64 { return y*t.A + x*(1-t.A) }

		return Straight{f(b.R, t.R), f(b.G, t.G), f(b.B, t.B), b.A}
	case limage.CompositeDestinationAtop:
		f := func(x, y float64) float64 { return x*b.A + y*(1-b.A) }

		return Straight{f(b.R, t.R), f(b.G, t.G), f(b.B, t.B), t.A}
	}

	return over(b, t)
}

func (s Straight) norm() Straight {
	if s.A == 0 {
		return Straight{}
	}

	return s
}

func rgb(r, g, b float64) Straight { return Straight{R: r, G: g, B: b} }

func (s Straight) alpha(a float64) Straight {
	s.A = a

	return s
}

func over(b, t Straight) Straight {
	a := b.A + t.A - b.A*t.A
	if a == 0 {
		return Straight{}
	}

	k := t.A / a

	return Straight{mix(b.R, t.R, k), mix(b.G, t.G, k), mix(b.B, t.B, k), a}
}

func mix(x, y, k float64) float64 { return (1-k)*x + k*y }

// paint puts v over b with an opacity of the smaller alpha, keeping b's.
func paint(b, v Straight) Straight {
	if b.A == 0 {
		return Straight{}
	}

	v.A = math.Min(v.A, b.A)
	o := over(b, v)
	o.A = b.A

	return o
}
