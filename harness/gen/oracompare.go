package gen

import (
	"fmt"
	"image"
	"image/color"

	"verif/rt"

	"vimagination.zapto.org/limage"
)

// SameStored compares what PNG makes of the part r of a leaf with a picture.
func SameStored(t *rt.T, l limage.Layer, r image.Rectangle, got image.Image) string {
	i := l.Image

	if w, ok := i.(Whole); ok {
		i = w.Image
	} else if i.Bounds() != (image.Rectangle{Max: l.LayerBounds.Size()}) {
		t.Count("layers_unlike_their_picture", 1)

		return near(shown{i, r}, got)
	}

	p, err := PNGTrip(i)
	if err != nil {
		t.Fail("the generator made a picture without PNG: %v", err)
	}

	return SameAsPNG(shown{i, r.Add(i.Bounds().Min)}, PartOf(p, r), got)
}

// SameAsPNG compares a picture that is read with what PNG makes of an image,
// unless PNG takes the image for a grey one that it is not.
func SameAsPNG(i, stored, got image.Image) string {
	switch i.ColorModel() {
	case color.GrayModel, color.Gray16Model:
		if !grey(i) {
			return near(i, got)
		}
	}

	if s := SamePicture(stored, got); s != "" {
		return s
	}

	return near(i, got)
}

func grey(i image.Image) bool {
	b := i.Bounds()

	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			if c := Pre16(i.At(x, y)); c[0] != c[1] || c[0] != c[2] || c[3] != 0xffff {
				return false
			}
		}
	}

	return true
}

// shown is a part of an image, which may be beyond its bounds.
type shown struct {
	image.Image
	r image.Rectangle
}

func (s shown) Bounds() image.Rectangle { return s.r }

// near compares an image of any type with what is read from a PNG.
func near(i, got image.Image) string {
	w, b := i.Bounds(), got.Bounds()

	if b.Size() != w.Size() {
		return fmt.Sprintf("size is %v, want %v", b.Size(), w.Size())
	}

	for y := 0; y < b.Dy(); y++ {
		for x := 0; x < b.Dx(); x++ { // which may be stored in 8 bits or in 16
			c, d := got.At(b.Min.X+x, b.Min.Y+y), i.At(w.Min.X+x, w.Min.Y+y)

			if Diff16(c, d) > 0x202 {
				return fmt.Sprintf("pixel (%d,%d) is %v, the layer shows %v", x, y, Pre16(c), Pre16(d))
			}
		}
	}

	return ""
}

// CompareOra compares what was decoded with what was encoded.
func CompareOra(t *rt.T, want, got limage.Image, path string) (leaves int) {
	return compareOra(t, want, got, image.Point{}, image.Point{}, image.Rectangle{Max: want.Bounds().Max}, path)
}

// overhanging tells whether layers of a group begin left of or above it; then
// it is put where the first of them is.
func overhanging(g limage.Image) bool {
	for _, l := range g {
		if l.LayerBounds.Min.X < 0 || l.LayerBounds.Min.Y < 0 {
			return true
		}

		if k, ok := GroupOf(l.Image); ok && overhanging(k) {
			return true
		}
	}

	return false
}

// PartOf is a part of a picture, given from its corner on.
func PartOf(i image.Image, r image.Rectangle) image.Image {
	return i.(interface {
		SubImage(image.Rectangle) image.Image
	}).SubImage(r.Add(i.Bounds().Min))
}

// compareOra compares groups that are at wo and at ho on the canvas. Groups of which
// layers reach over an edge may be anywhere, as long as their layers are where
// they were; the layers end with the canvas.
func compareOra(t *rt.T, want, got limage.Image, wo, ho image.Point, canvas image.Rectangle, path string) (leaves int) {
	if len(want) != len(got) {
		t.Fail("%s has %d layers, want %d", path, len(got), len(want))
	}

	for n := range want {
		w, g := want[n], got[n]
		p := fmt.Sprintf("%s layer %d", path, n)

		t.Eval(1)

		if w.Name != g.Name {
			t.Fail("%s is named %q, want %q", p, g.Name, w.Name)
		}

		if w.Invisible != g.Invisible || w.Transparency != g.Transparency {
			t.Fail("%s: hidden %v, transparency %d; want %v, %d", p, g.Invisible, g.Transparency, w.Invisible, w.Transparency)
		}

		if m := OraMode(w.Mode); m != g.Mode {
			t.Fail("%s has mode %s, want %s", p, g.Mode, m)
		}

		if wg, ok := GroupOf(w.Image); ok {
			gg, ok := GroupOf(g.Image)
			if !ok {
				t.Fail("%s is a %T, want a group", p, g.Image)
			}

			wp, hp := w.LayerBounds.Min.Add(wo), g.LayerBounds.Min.Add(ho)

			if overhanging(wg) {
				t.Count("overhanging_groups", 1)
			} else if len(wg) > 0 && wp != hp && wp.In(canvas) && !g.LayerBounds.Empty() {
				t.Fail("%s, a group, is at %v, want %v", p, g.LayerBounds, w.LayerBounds)
			}

			leaves += compareOra(t, wg, gg, wp, hp, canvas, p)

			continue
		}

		leaves++

		wb, gb := w.LayerBounds.Add(wo), g.LayerBounds.Add(ho)

		if c := wb.Intersect(canvas); c != wb {
			if c.Empty() && gb.Empty() {
				continue
			}

			if gb != c {
				t.Fail("%s is at %v of the canvas %v, want what is on it of %v", p, gb, canvas, wb)
			}

			t.Count("layers_clipped", 1)

			if s := SameStored(t, w, c.Sub(wb.Min), g.Image); s != "" {
				t.Fail("%s (a %T): %s", p, w.Image, s)
			}

			continue
		}

		if wb != gb {
			t.Fail("%s is at %v of the canvas, want %v", p, gb, wb)
		}

		if b := g.Image.Bounds(); b != (image.Rectangle{Max: w.LayerBounds.Size()}) {
			t.Fail("%s has a picture at %v in a layer at %v", p, b, g.LayerBounds)
		}

		if s := SameStored(t, w, image.Rectangle{Max: w.LayerBounds.Size()}, g.Image); s != "" {
			t.Fail("%s (a %T): %s", p, w.Image, s)
		}
	}

	return leaves
}
