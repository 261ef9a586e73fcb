package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"image"
	"math"
	"runtime"
	"strings"

	"verif/gen"
	"verif/rt"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/xcf"
)

// sane reads every pixel of an image, flattened and layer by layer, and
// complains of broken ones.
func sane(t *rt.T, img limage.Image) {
	if img == nil {
		t.Fail("no error and no image")
	}

	clip := func(b image.Rectangle, n int) image.Rectangle {
		if b.Dx() > n || b.Dy() > n {
			b = b.Intersect(image.Rectangle{b.Min, b.Min.Add(image.Pt(n, n))})
		}

		return b
	}

	b := clip(img.Bounds(), 100)

	for y := b.Min.Y - 1; y < b.Max.Y+1; y++ {
		for x := b.Min.X - 1; x < b.Max.X+1; x++ {
			if img.At(x, y) == nil {
				t.Fail("pixel (%d,%d) is nil", x, y)
			}
		}
	}

	gen.Walk(img, func(path string, i image.Image) {
		if l, ok := i.(limage.Layer); ok && l.Image == nil {
			t.Fail("%s has no picture", path)
		}

		i.ColorModel()

		b := clip(i.Bounds(), 70)
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				if i.At(x, y) == nil {
					t.Fail("pixel (%d,%d) of %s is nil", x, y, path)
				}
			}
		}

		// the far corner
		if b = i.Bounds(); !b.Empty() && i.At(b.Max.X-1, b.Max.Y-1) == nil {
			t.Fail("the last pixel of %s is nil", path)
		}
	})
}

// described is how many bytes the pictures of an image take.
func described(img limage.Image) uint64 {
	var n uint64

	gen.Walk(img, func(_ string, i image.Image) {
		switch i.(type) {
		case limage.Image, limage.Layer, limage.Text:
		default:
			b := i.Bounds()
			n += 4 * uint64(b.Dx()) * uint64(b.Dy())
		}
	})

	return n
}

// try decodes in all ways, watching for panics and memory, and gives the
// errors of the decoders and of DecodeConfig. Some layers may share tiles.
func try(t *rt.T, b []byte, layers int) (err, cerr error) {
	var (
		m, n runtime.MemStats
		errs [2]error
		conf image.Config
	)

	for k := range errs {
		runtime.ReadMemStats(&m)

		var img limage.Image

		img, errs[k] = tryDecode(t, b, k == 1)

		runtime.ReadMemStats(&n)
		t.Eval(1)

		limit := uint64(8<<20) + 5000*uint64(len(b)*layers)

		if errs[k] == nil {
			t.Guard("reading pixels", func() { sane(t, img) })
			t.Count("decoded", 1)

			limit += 4 * described(img)
		} else {
			t.Count("refused", 1)
		}

		if got := n.TotalAlloc - m.TotalAlloc; got > limit {
			t.Fail("decoding %d bytes (deferred: %v) allocates %d bytes, error %v", len(b), k == 1, got, errs[k])
		}
	}

	if (errs[0] == nil) != (errs[1] == nil) {
		t.Fail("Decode says %v, DecodeCompressed says %v", errs[0], errs[1])
	}

	runtime.ReadMemStats(&m)
	t.Guard("DecodeConfig", func() { conf, cerr = xcf.DecodeConfig(bytes.NewReader(b)) })
	runtime.ReadMemStats(&n)

	if got, limit := n.TotalAlloc-m.TotalAlloc, uint64(8<<20)+5000*uint64(len(b)); got > limit {
		t.Fail("DecodeConfig of %d bytes allocates %d bytes", len(b), got)
	}

	if errs[0] == nil && cerr != nil {
		t.Fail("Decode succeeds but DecodeConfig fails: %v", cerr)
	}

	if errs[0] == nil && conf.ColorModel == nil {
		t.Fail("DecodeConfig has no colour model")
	}

	return errs[0], cerr
}

func be(vs ...uint32) []byte {
	var b []byte

	for _, v := range vs {
		b = binary.BigEndian.AppendUint32(b, v)
	}

	return b
}

const (
	htFields = iota
	htTwoFields
	htPointers
	htTruncate
	htBytes
	htSplice
	htJunk
	htText
	htDeep
	htPaths
	htSizes
	htErrors
	htProps
	htRuns
	nHostile
)

func extreme(t *rt.T, old uint32, length int) uint32 {
	switch t.N(7) {
	case 0:
		return uint32(t.N(70))
	case 1:
		return old + uint32(t.Pick(1, -1, 64, -64, 256, 1<<16, 1<<31))
	case 2:
		return uint32(t.N(length + 8))
	}

	return []uint32{0, 1, 2, 3, 63, 64, 65, 127, 255, 256, 257, 0x7fff, 0xffff, 0x10000, 0x00ffffff, 0x01000000, 0x01000001, 0x3fffffff, 0x40000000, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffff0, 0xfffffffe, 0xffffffff}[t.N(26)]
}

func setField(t *rt.T, b []byte, f gen.XField, v uint32) {
	if f.Size == 8 {
		if t.B() {
			binary.BigEndian.PutUint64(b[f.Off:], uint64(v))
		} else {
			binary.BigEndian.PutUint32(b[f.Off:], v)
		}
	} else {
		binary.BigEndian.PutUint32(b[f.Off:], v)
	}
}

func smallForeign(t *rt.T) *gen.XForeign {
	return &gen.XForeign{R: t.Rng, Version: -1, Base: -1, Depth: t.N(3), Texts: t.B(), Small: true, MaxLayers: 3, Dissolve: true}
}

var c24 = &rt.Check{
	ID: "C24", Level: "exploration",
	Rule: "small valid files of C22's generator broken in 14 ways: every 32-bit field and pointer in turn replaced by extremes, two fields at a time, pointers aimed at other structures, cut at every length, bytes changed, inserted, deleted, moved, junk after the header, text parasites and markup of random tokens, nesting up to 300000 deep, arbitrary item paths, enormous but consistent sizes, hostile properties, run-length data of random codes, and plain files with exactly one mistake for which the error is known; all decoded eagerly, deferred and as configuration with monitors for panics (which end the process when in the decoder's goroutines), CPU time, bytes allocated; decoded images read in every pixel; the error compared with the one due. Non-trivial: files that differ from the valid one; counted by hash of the content.",
	N:    rt.Cases(5200, 150000), MinKeys: 60000, MemLimit: 8 << 30, CPULimit: 60,
	Run: func(t *rt.T) {
		kind := t.Idx % nHostile
		o := smallForeign(t)

		if kind == htErrors {
			wrongs(t)

			return
		}

		f := o.Make()

		// the text for texts
		if kind == htText || kind == htDeep {
			for _, l := range f.Flat() {
				if !l.Group {
					l.Text = &gen.XText{}
				}
			}
		}

		run := func(what string, b []byte) error {
			t.Describe("%s: %s, file %x", what, f.Describe(), short(b))

			layers := 1
			if kind == htSizes {
				layers = 2 * len(f.Flat())
			}

			err, _ := try(t, b, layers)

			t.Key(rt.HashB(b))

			return err
		}

		plain := t.P(3)
		b, fields := f.WriteFields(t.Rng, plain)

		if kind != htText && kind != htDeep {
			if err := run("valid", b); err != nil {
				t.Fail("the valid file is refused: %v", err)
			}
		}

		switch kind {
		case htFields:
			n := 3
			if t.Thorough {
				n = 8
			}

			for _, x := range fields {
				for k := 0; k < n; k++ {
					c := append([]byte(nil), b...)
					v := extreme(t, binary.BigEndian.Uint32(b[x.Off+x.Size-4:]), len(b))
					setField(t, c, x, v)
					t.Count("fields_replaced", 1)
					run(fmt.Sprintf("%s at %d set to %#x", x.Kind, x.Off, v), c)
				}
			}
		case htTwoFields:
			for k := 0; k < 60; k++ {
				c := append([]byte(nil), b...)
				what := ""

				for j := t.R(2, 4); j > 0; j-- {
					x := fields[t.N(len(fields))]
					v := extreme(t, binary.BigEndian.Uint32(b[x.Off+x.Size-4:]), len(b))
					setField(t, c, x, v)
					what += fmt.Sprintf("%s at %d set to %#x ", x.Kind, x.Off, v)
				}

				run(what, c)
			}
		case htPointers:
			var ps []gen.XField

			for _, x := range fields {
				if x.Kind == "pointer" {
					ps = append(ps, x)
				}
			}

			for k := 0; k < 60; k++ {
				c := append([]byte(nil), b...)
				what := ""

				for j := t.R(1, 3); j > 0; j-- {
					x, y := ps[t.N(len(ps))], ps[t.N(len(ps))]
					copy(c[x.Off:x.Off+x.Size], b[y.Off:])
					what += fmt.Sprintf("pointer at %d as the one at %d ", x.Off, y.Off)
				}

				run(what, c)
			}
		case htTruncate:
			step := 1 + len(b)/600
			for n := t.N(step); n < len(b); n += step {
				run(fmt.Sprintf("cut to %d", n), b[:n:n])
			}
		case htBytes:
			for k := 0; k < 60; k++ {
				c := append([]byte(nil), b...)

				for j := t.R(1, 5); j > 0; j-- {
					c[t.N(len(c))] = t.Edge8()
				}

				run("bytes changed", c)
			}
		case htSplice:
			for k := 0; k < 60; k++ {
				c := append([]byte(nil), b...)

				switch p, q, n := t.N(len(b)), t.N(len(b)), t.R(1, 40); t.N(4) {
				case 0:
					if p+n < len(b) {
						c = append(c[:p], c[p+n:]...)
					}
				case 1:
					c = append(append(append([]byte(nil), b[:p]...), make([]byte, n)...), b[p:]...)
				case 2:
					if p+n < len(b) {
						c = append(append(append([]byte(nil), b[:q]...), b[p:p+n]...), b[q:]...)
					}
				case 3:
					copy(c[q:], b[p:])
				}

				run("bytes moved", c)
			}
		case htJunk:
			for k := 0; k < 30; k++ {
				c := append([]byte(nil), b[:14]...)

				for j := t.R(1, 1500); j > 0; j-- {
					if t.P(3) {
						c = append(c, t.U8())
					} else {
						c = append(c, be(uint32(t.N(45)))[t.N(4):]...)
					}
				}

				if t.B() {
					copy(c[14:], b[14:t.R(14, len(b))])
				}

				run("junk", c)
			}
		case htText:
			for k := 0; k < 25; k++ {
				for _, l := range f.Flat() {
					if l.Text != nil {
						l.Text.Raw = hostileText(t)
					}
				}

				run("hostile text", f.Write(t.Rng, plain))
			}
		case htDeep:
			for _, l := range f.Flat() {
				if l.Text != nil {
					l.Text.Raw = deepText(t)
				}
			}

			run("deep text", f.Write(t.Rng, plain))
		case htPaths:
			for k := 0; k < 30; k++ {
				ls := f.Flat()

				for _, l := range ls {
					l.Path = nil

					if t.P(3) {
						continue
					}

					if l.Chan != nil && t.P(5) {
						l.Group = !l.Group
					}

					for j := t.N(5); j >= 0; j-- {
						l.Path = append(l.Path, uint32(t.N(3)))

						if t.P(10) {
							l.Path[len(l.Path)-1] = extreme(t, 0, 10)
						}
					}
				}

				run("item paths", f.Write(t.Rng, true))
			}

			// very long ones
			for _, l := range f.Flat() {
				l.Path = make([]uint32, t.Pick(1000, 50000))
			}

			run("long item paths", f.Write(t.Rng, true))
		case htSizes:
			for k := 0; k < 20; k++ {
				w, h := extreme(t, 1, 100), extreme(t, 1, 100)
				c := append([]byte(nil), b...)

				for _, x := range fields {
					switch x.Kind {
					case "layer width", "hierarchy width", "level width", "mask width":
						binary.BigEndian.PutUint32(c[x.Off:], w)
					case "layer height", "hierarchy height", "level height", "mask height":
						binary.BigEndian.PutUint32(c[x.Off:], h)
					case "canvas width", "canvas height":
						if t.B() {
							binary.BigEndian.PutUint32(c[x.Off:], extreme(t, 1, 100))
						}
					}
				}

				if t.P(3) { // pointers without end, or zeros
					tail := make([]byte, t.N(20000))
					if t.B() {
						for n := range tail {
							tail[n] = b[t.N(len(b))]
						}
					}

					c = append(c, tail...)
				}

				run(fmt.Sprintf("sizes %dx%d", w, h), c)
			}

			// layers without a width or a height, and so without pixels
			ls := f.Flat()

			for k := t.N(4); k > 2 && len(ls) > 0; k-- {
				l := ls[t.N(len(ls))]
				l.W, l.H = 0, t.Pick(0, 1, 64, 1<<31-1, 1<<31, math.MaxUint32-64, math.MaxUint32-63, math.MaxUint32-62, math.MaxUint32-t.N(64), math.MaxUint32)

				if t.B() {
					l.W, l.H = l.H, l.W
				}

				for n := range l.Chan {
					l.Chan[n] = nil
				}

				if l.Mask != nil {
					l.Mask = []byte{}
				}

				run(fmt.Sprintf("an empty layer of %dx%d", l.W, l.H), f.Write(t.Rng, plain))
				t.Count("layers_with_a_side_of_0", 1)
			}
		case htProps:
			for k := 0; k < 40; k++ {
				hostileProps(t, f)
				run("properties", f.Write(t.Rng, plain))
			}
		case htRuns:
			f.RLE = true
			b, _ := f.WriteFields(t.Rng, true)
			d := gen.TileBytes(b)

			if len(d) == 0 {
				return
			}

			for k := 0; k < 40; k++ {
				c := append([]byte(nil), b...)

				for j := t.R(1, 8); j > 0; j-- {
					c[d[t.N(len(d))]] = uint8(t.Pick(0, 1, 2, 126, 127, 127, 128, 128, 129, 254, 255))
				}

				if t.P(4) { // empty runs to the end
					p := d[t.N(len(d))]
					c = append(c[:p], bytes.Repeat([]byte{byte(t.Pick(127, 128)), 0, 0, byte(t.Pick(0, 127, 128))}, t.Pick(20, 70, 5000))...)
				}

				run("runs", c)
			}
		}

		t.Count(fmt.Sprintf("cases_of_kind_%d", kind), 1)
		t.Sample("kind %d of %s", kind, f.Describe())
	},
}

func short(b []byte) []byte {
	if len(b) > 600 {
		b = b[:600]
	}

	return b
}

// hostileText is a text parasite of random tokens.
func hostileText(t *rt.T) string {
	if t.P(3) { // a valid one damaged
		b := []byte(gen.RandXText(t.Rng).Raw)

		for j := t.R(1, 4); j > 0 && len(b) > 1; j-- {
			p := t.N(len(b))

			switch t.N(3) {
			case 0:
				b[p] = "()\"\\ \n0.<>&;x\x00\xff"[t.N(15)]
			case 1:
				b = append(b[:p], b[p+1:]...)
			case 2:
				b = append(b[:p:p], append([]byte(t.PickS("(", ")", "\"", "\\", "\\\"", "<b>", "</markup>", "&x;", "(text \"x\")", "(color (color-rgb 1 2))", "#")), b[p:]...)...)
			}
		}

		return string(b)
	}

	var s strings.Builder

	if t.B() {
		s.WriteString("(markup \"")
	}

	for j := t.R(0, 25); j > 0; j-- {
		s.WriteString(t.PickS("(", ")", "\"", "\\", "\\\\", "\\\"", "\\7", "\\777", "\\x", " ", "\n", "text", "markup", "font", "font-size", "color", "color-rgb", "1", "1.5", "1e9", "-3", "99999999999999999999999", ".", "..", "(text", "(text)", "(text \"a\" \"b\")", "(text 1)", "(font 7)", "(color 1)", "(color (color-rgb 9 -9 1e300))", "(color (x))", "(font-size \"x\")", "(font-size 1e999)", "(font-size -4)", "(markup 5)",
			"<", ">", "</", "/>", "<markup>", "</markup>", "<b>", "</b>", "<span>", "</span>", "<span size='x'>", "<span size='-99999999999999999999'>", "<span size=\\\"1\\\">", "<span foreground='#xyzxyz'>", "<span foreground='#'>", "<span foreground='#fff'>", "<span background='red'>", "<span rise=''>", "<span letter_spacing='9223372036854775807'>", "&amp;", "&", "&#0;", "<!--", "]]>", "<![CDATA[", "<?x", "\xff\xfe", "\x01", "ü", "a"))
	}

	if t.B() {
		s.WriteString("\")")
	}

	return s.String()
}

func deepText(t *rt.T) string {
	n := t.Pick(99, 100, 101, 102, 2000, 50000, 300000)

	switch t.N(8) {
	case 0:
		return strings.Repeat("(a", n)
	case 1:
		return strings.Repeat("(a ", n) + strings.Repeat(")", n)
	case 2:
		return "(markup \"" + strings.Repeat("<b>", n) + "x" + strings.Repeat("</b>", n) + "\")"
	case 3:
		return "(markup \"" + strings.Repeat("<b>", n) + "\")"
	case 4:
		return "(text \"" + strings.Repeat("\\", n) + "\")"
	case 5:
		return "(text " + strings.Repeat("9", n) + ")"
	case 6:
		return strings.Repeat("(text \"x\")", n)
	default:
		return "(markup \"" + strings.Repeat("</b>", n) + "\")"
	}
}

// hostileProps adds properties with unlikely content.
func hostileProps(t *rt.T, f *gen.XFile) {
	content := func() []byte {
		var b []byte

		for j := t.N(12); j > 0; j-- {
			switch t.N(4) {
			case 0:
				b = append(b, t.U8())
			case 1:
				b = append(b, be(uint32(t.N(5)))...)
			case 2:
				b = append(b, be(extreme(t, 1, 50))...)
			case 3:
				s := t.PickS("", "x", "gimp-text-layer", "gimp-comment")
				b = append(append(append(b, be(uint32(len(s)+1))...), s...), byte(t.N(10)/9))
			}
		}

		return b
	}

	f.Extra = nil

	for j := t.N(3); j > 0; j-- {
		f.Extra = append(f.Extra, gen.XProp{ID: uint32(t.R(1, 41)), Data: content()})
	}

	for _, l := range f.Flat() {
		l.Extra = nil

		for j := t.N(3); j > 0; j-- {
			l.Extra = append(l.Extra, gen.XProp{ID: uint32(t.R(1, 41)), Data: content()})
		}
	}
}

// wrongs makes files with exactly one mistake.
func wrongs(t *rt.T) {
	o := smallForeign(t)
	o.Depth, o.MaxLayers, o.Texts = 0, 1, false

	for k := 0; k < 6; k++ {
		f := o.Make()
		f.Layers = f.Layers[:1]
		l := f.Layers[0]

		if l.Mask == nil {
			l.Mask = make([]byte, l.W*l.H)
		}

		b, fields := f.WriteFields(t.Rng, true)

		t.Describe("valid: %s", f.Describe())

		if err, _ := try(t, b, 1); err != nil {
			t.Fail("the valid file is refused: %v", err)
		}

		find := func(kind string) int {
			var at []int

			for _, x := range fields {
				if x.Kind == kind {
					at = append(at, x.Off)
				}
			}

			return at[t.N(len(at))]
		}

		expect := func(what string, c []byte, want error, config bool) {
			t.Describe("%s: %s, file %x", what, f.Describe(), short(c))

			err, cerr := try(t, c, 1)

			if !errors.Is(err, want) {
				t.Fail("the error is %v, want %v", err, want)
			}

			if config && !errors.Is(cerr, want) {
				t.Fail("DecodeConfig's error is %v, want %v", cerr, want)
			}

			t.Count("errors_compared", 1)
			t.Key(rt.HashB(c))
		}

		put := func(what, kind string, v uint32, want error, config bool) {
			c := append([]byte(nil), b...)
			at := find(kind)

			if binary.BigEndian.Uint32(c[at:]) == v {
				return
			}

			binary.BigEndian.PutUint32(c[at:], v)
			expect(fmt.Sprintf("%s: %s at %d set to %d", what, kind, at, v), c, want, config)
		}

		// with a property more
		more := func(what string, image bool, id uint32, data []byte, want error) {
			if image {
				f.Extra = []gen.XProp{{ID: id, Data: data}}
			} else {
				l.Extra = []gen.XProp{{ID: id, Data: data}}
			}

			c := f.Write(t.Rng, true)
			f.Extra, l.Extra = nil, nil
			expect(fmt.Sprintf("%s: property %d (of the image: %v) of %x", what, id, image, data), c, want, false)
		}

		// the signature
		c := append([]byte(nil), b...)
		c[t.N(9)] ^= byte(1 << t.N(8))
		expect("signature", c, xcf.ErrInvalidFileTypeID, true)

		// the version
		c = append([]byte(nil), b...)
		copy(c[9:], t.PickS("v014", "v000", "v015", "v020", "v111", "v100", "File", "filf", "w001", "v01\x00", "V003", "v 01", "v\x0001"))
		expect("version", c, xcf.ErrUnsupportedVersion, true)

		c = append([]byte(nil), b...)
		c[13] = uint8(t.R(1, 255))
		expect("header without end", c, xcf.ErrInvalidHeader, true)

		put("base type", "base type", uint32(t.Pick(3, 4, 255, 256, 1<<16, math.MaxInt32, 1<<31)), xcf.ErrInvalidHeader, true)

		put("layer type", "layer type", uint32(t.Pick(6, 7, 8, 255, 256, 1<<31))|uint32(f.Base)<<1&^1, xcf.ErrInvalidLayerType, false)
		put("layer of another kind", "layer type", uint32((f.Base+t.R(1, 2))%3*2+t.N(2)), xcf.ErrInvalidLayerType, false)

		for _, kind := range []string{"layer width", "layer height", "hierarchy width", "hierarchy height", "level width", "level height", "mask width", "mask height", "bytes per pixel"} {
			v := binary.BigEndian.Uint32(b[find(kind):])
			put("size", kind, v+uint32(t.Pick(1, -1, 64, 256, 1<<16)), xcf.ErrInconsistantData, false)
		}

		put("opacity", "property 6", uint32(t.Pick(256, 257, 511, 512, 0xffff, math.MaxInt32, 1<<31, math.MaxUint32)), xcf.ErrInvalidOpacity, false)
		put("visible", "property 8", uint32(t.Pick(2, 3, 255, 256, 1<<16, 1<<24, 1<<31, math.MaxUint32)), xcf.ErrInvalidBoolean, false)

		for _, v := range []float64{-0.01, 1.01, 2, -1, 255, math.Inf(1), math.NaN(), math.Inf(-1)} {
			more("float opacity", false, 33, be(math.Float32bits(float32(v))), xcf.ErrInvalidOpacity)
		}

		more("compression", true, 17, []byte{uint8(t.R(2, 255))}, xcf.ErrUnknownCompression)
		more("guides", true, 18, make([]byte, 5*t.N(4)+t.R(1, 4)), xcf.ErrInvalidGuideLength)
		more("unit", true, 22, be(uint32(t.Pick(5, 6, 256, 1<<31))), xcf.ErrInvalidUnit)
		more("sample points", true, 39, make([]byte, 12*t.N(4)+t.R(1, 11)), xcf.ErrInvalidSampleLength)
		more("image opacity", true, 6, be(uint32(t.Pick(256, 1<<31))), xcf.ErrInvalidOpacity)
		more("image boolean", true, uint32(t.Pick(8, 9, 28)), be(uint32(t.Pick(2, 256, 1<<31))), xcf.ErrInvalidBoolean)
		more("item path", false, 30, make([]byte, 4*t.R(0, 3)+t.R(1, 3)), xcf.ErrInvalidItemPathLength)
		more("item path", false, 30, be(uint32(t.N(3)), uint32(t.N(3))), xcf.ErrInvalidGroup)
		more("item path", false, 30, be(uint32(t.N(3)), uint32(t.N(3)), 0), xcf.ErrInvalidGroup)
		more("vectors' version", true, 25, be(uint32(t.Pick(0, 2, 1<<31)), 0, 0), xcf.ErrUnknownVectorVersion)
		more("stroke type", true, 25, be(1, 0, 1, 0, 0, 0, 0, 0, 1, uint32(t.Pick(0, 2)), 0, 2, 0), xcf.ErrUnknownStrokeType)
		more("floats", true, 25, be(1, 0, 1, 0, 0, 0, 0, 0, 1, 1, 0, uint32(t.Pick(0, 1, 7)), 0), xcf.ErrInvalidFloatsNumber)
		more("paths' version", true, 23, append(append(be(0, 1, 0, 0), 2), be(0, 0, uint32(t.Pick(0, 4, 1<<31)))...), xcf.ErrUnknownPathsVersion)

		if f.Base == 2 {
			more("palette", true, 1, append(be(257), make([]byte, 257*3)...), xcf.ErrInvalidProperties)
		}

		par := func(s string, length uint32) []byte {
			return append(append(be(length), s...), be(0, 0)...)
		}

		more("parasite's name", false, 21, par("ab", 2), xcf.ErrInvalidString)
		more("parasite's name", false, 21, par("a\xff\x00", 3), xcf.ErrInvalidString)
		more("parasite's length", false, 21, append(append(be(2), 'a', 0), be(0, uint32(t.Pick(1, 256, 1<<31)))...), xcf.ErrInvalidParasites)
		more("parasite's name", false, 21, par("a\x00", uint32(t.Pick(16<<20+1, 1<<31, math.MaxUint32))), xcf.ErrStringTooLong)

		// the layer's name
		if l.Name != "" {
			at := find("layer name")
			n := int(binary.BigEndian.Uint32(b[at:]))

			if n > 1 {
				c = append([]byte(nil), b...)
				c[at+4+n-1] = 'x'
				expect("name without end", c, xcf.ErrInvalidString, false)

				c = append([]byte(nil), b...)
				c[at+4] = uint8(t.Pick(0xff, 0xc0, 0xfe))
				expect("name not of UTF-8", c, xcf.ErrInvalidString, false)

				put("name", "layer name", uint32(t.Pick(16<<20+1, 1<<31, math.MaxUint32)), xcf.ErrStringTooLong, false)
			}
		}

		put("end of properties", "length of the end", uint32(t.Pick(1, 4, 1<<31)), xcf.ErrInvalidProperties, false)

		// two layers, the first without alpha
		g := *f
		m := *l
		m.Alpha = false
		m.Chan = m.Chan[:f.Channels(false)]
		g.Layers = []*gen.XLayer{&m, &m}
		expect("layer without alpha", g.Write(t.Rng, true), xcf.ErrMissingAlpha, false)

		// pixels beyond the palette
		if f.Base == 2 && len(f.Palette) < 256 {
			m := *l
			m.Chan = append([][]byte(nil), l.Chan...)
			m.Chan[0] = append([]byte(nil), m.Chan[0]...)
			m.Chan[0][t.N(len(m.Chan[0]))] = uint8(t.R(len(f.Palette), 255))
			g.Layers = []*gen.XLayer{&m}
			expect("pixel beyond the palette", g.Write(t.Rng, true), xcf.ErrInconsistantData, false)
		}

		// a layer's type not matching its bytes
		if l.Alpha {
			put("alpha lost", "layer type", uint32(f.Base*2), xcf.ErrInconsistantData, false)
		}

		// empty runs without end
		if f.RLE {
			d := gen.TileBytes(b)
			if len(d) > 0 {
				c = append(append([]byte(nil), b[:d[0]]...), bytes.Repeat([]byte{128, 0, 0}, 2000)...)
				if len(c) > len(b) {
					c = append(c, 0)
					t.Describe("empty runs: %s", f.Describe())

					if err, _ := try(t, c, 1); err == nil {
						t.Fail("2000 empty runs are no error")
					}
				}
			}
		}
	}

	t.Count("cases_of_kind_11", 1)
}
