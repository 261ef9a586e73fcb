package gen

import (
	"fmt"
	"image"
	"image/color"
	"reflect"

	"verif/rt"

	"vimagination.zapto.org/limage"
)

// Walk visits every image in a tree.
func Walk(i image.Image, f func(string, image.Image)) { walkPath("image", i, f) }

func walkPath(p string, i image.Image, f func(string, image.Image)) {
	if i == nil {
		return
	}

	f(p, i)

	switch i := i.(type) {
	case limage.Image:
		for n, l := range i {
			walkPath(fmt.Sprintf("%s/%d", p, n), l, f)
		}
	case *limage.Image:
		for n, l := range *i {
			walkPath(fmt.Sprintf("%s/%d", p, n), l, f)
		}
	case limage.Layer:
		walkPath(p+"/image", i.Image, f)
	case *limage.Layer:
		walkPath(p+"/image", i.Image, f)
	case limage.Text:
		walkPath(p+"/text", i.Image, f)
	case *limage.Text:
		walkPath(p+"/text", i.Image, f)
	case limage.MaskedImage:
		walkPath(p+"/masked", i.Image, f)
	case *limage.MaskedImage:
		walkPath(p+"/masked", i.Image, f)
	}
}

// Pointers replaces some values in a tree by pointers to them.
func Pointers(r *rt.Rng, i limage.Image) {
	for n := range i {
		i[n].Image = pointer(r, i[n].Image)
	}
}

func pointer(r *rt.Rng, i image.Image) image.Image {
	switch j := i.(type) {
	case limage.Image:
		Pointers(r, j)

		if r.B() {
			return &j
		}
	case limage.MaskedImage:
		j.Image = pointer(r, j.Image)

		if r.B() {
			return &j
		}

		return j
	case limage.Text:
		if r.B() {
			return &j
		}
	}

	return i
}

// Plain is what a pointer made by Pointers points to.
func Plain(i image.Image) image.Image {
	switch i := i.(type) {
	case *limage.Image:
		return *i
	case *limage.MaskedImage:
		return *i
	case *limage.Text:
		return *i
	}

	return i
}

// Snapshot reads everything that can be seen of a tree.
func Snapshot(img image.Image) []interface{} {
	s := []interface{}{DescribeImage(img)}

	mask := func(m *image.Gray) {
		if m != nil {
			s = append(s, m.Rect, m.Stride, string(m.Pix))
		}
	}

	Walk(img, func(path string, i image.Image) {
		switch i := i.(type) {
		case limage.MaskedImage:
			mask(i.Mask)

			return
		case *limage.MaskedImage:
			mask(i.Mask)

			return
		case limage.Text:
			s = append(s, fmt.Sprintf("%#v", i.TextData))

			return
		case *limage.Text:
			s = append(s, fmt.Sprintf("%#v", i.TextData))

			return
		case limage.Layer:
			s = append(s, i.LayerBounds, i.Name, i.Mode, i.Invisible, i.Transparency)

			return
		case *limage.Layer:
			s = append(s, i.LayerBounds, i.Name, i.Mode, i.Invisible, i.Transparency)

			return
		case limage.Image, *limage.Image:
			return
		}

		// the raw pixels and the palette
		if v := reflect.Indirect(reflect.ValueOf(i)); v.Kind() == reflect.Struct {
			if p := v.FieldByName("Pix"); p.IsValid() {
				s = append(s, fmt.Sprint(p.Interface()))
			}

			if p := v.FieldByName("Palette"); p.IsValid() {
				s = append(s, fmt.Sprintf("%#v", p.Interface()))
			}

			if p := v.FieldByName("Rect"); p.IsValid() {
				s = append(s, p.Interface())
			}
		}

		if p, ok := i.ColorModel().(color.Palette); ok {
			s = append(s, fmt.Sprintf("%#v", p))
		}

		b := i.Bounds()
		if b.Dx() > 1000 {
			b = b.Intersect(image.Rect(-50, -50, 50, 50))
		}

		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				s = append(s, i.At(x, y))
			}
		}
	})

	return s
}

// SameSnap compares two snapshots.
func SameSnap(a, b []interface{}) bool { return reflect.DeepEqual(a, b) }

// Dissolves says whether a visible or hidden layer in a tree dissolves, so that
// reading the same pixel twice may give different colours.
func Dissolves(i image.Image) (is bool) {
	Walk(i, func(_ string, i image.Image) {
		switch l := i.(type) {
		case limage.Layer:
			is = is || l.Mode == limage.CompositeDissolve
		case *limage.Layer:
			is = is || l.Mode == limage.CompositeDissolve
		}
	})

	return is
}
