package main

import (
	"archive/zip"
	"bytes"
	"errors"
	"fmt"
	"image"
	"image/color"
	"io"
	"math"
	"runtime"
	"strings"

	"verif/gen"
	"verif/rt"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/ora"
)

// --- C16 ----------------------------------------------------------------------

type foreign struct {
	t      *rt.T
	canvas image.Rectangle
	leaves int
}

func (f *foreign) compare(want []*gen.OraNode, got limage.Image, at, gotAt image.Point, path string) {
	t := f.t

	if len(want) != len(got) {
		t.Fail("%s has %d layers, want %d", path, len(got), len(want))
	}

	for n, w := range want {
		g := got[n]
		p := fmt.Sprintf("%s/%d", path, n)

		t.Eval(1)

		if w.Name != g.Name {
			t.Fail("%s is named %q, want %q", p, g.Name, w.Name)
		}

		if g.Invisible != w.Hidden {
			t.Fail("%s: hidden %v, want %v", p, g.Invisible, w.Hidden)
		}

		if math.Abs(float64(255-g.Transparency)-w.Opacity*255) > 0.500001 {
			t.Fail("%s has transparency %d for opacity %v", p, g.Transparency, w.Opacity)
		}

		if m := gen.OraOps[w.Op]; m != g.Mode { // others: Normal, which is zero
			t.Fail("%s has mode %s for %q", p, g.Mode, w.Op)
		}

		abs := at.Add(image.Pt(w.X, w.Y))
		box := g.LayerBounds.Add(gotAt)

		if !box.Empty() && !box.In(f.canvas) {
			t.Fail("%s is at %v, outside of the canvas %v", p, box, f.canvas)
		}

		if w.Stack {
			i, ok := g.Image.(limage.Image)
			if !ok {
				t.Fail("%s is a %T, want a group", p, g.Image)
			}

			f.compare(w.Kids, i, abs, box.Min, p)

			for k, l := range i {
				if !l.LayerBounds.Empty() && !l.LayerBounds.Add(box.Min).In(box) {
					t.Fail("%s/%d, at %v, is not within its group, at %v", p, k, l.LayerBounds.Add(box.Min), box)
				}
			}

			continue
		}

		f.leaves++

		size := w.Pic.Bounds().Size()
		full := image.Rectangle{abs, abs.Add(size)}
		part := full.Intersect(f.canvas)

		if part.Empty() {
			if !box.Empty() {
				t.Fail("%s should be off the canvas, is at %v", p, box)
			}

			continue
		}

		if box != part {
			t.Fail("%s is at %v; the picture, at %v on a canvas of %v, should be at %v", p, box, full, f.canvas, part)
		}

		if part != full {
			t.Count("layers_clipped", 1)
		}

		for y := part.Min.Y; y < part.Max.Y; y++ {
			for x := part.Min.X; x < part.Max.X; x++ {
				c, d := w.Pic.At(x-abs.X, y-abs.Y), g.Image.At(x-box.Min.X, y-box.Min.Y)
				if !gen.SameColour(c, d) {
					t.Fail("%s: pixel (%d,%d) of the canvas is %v, want %v", p, x, y, gen.Pre16(d), gen.Pre16(c))
				}
			}
		}
	}
}

// fold flattens a file by its description (Normal mode only).
func fold(ns []*gen.OraNode, p image.Point) gen.Straight {
	var c gen.Straight

	for i := len(ns) - 1; i >= 0; i-- {
		n := ns[i]
		if n.Hidden {
			continue
		}

		q := p.Sub(image.Pt(n.X, n.Y))

		var s gen.Straight

		if n.Stack {
			s = fold(n.Kids, q)
		} else if q.In(n.Pic.Bounds()) {
			s = gen.StraightOf(n.Pic.At(q.X, q.Y))
		}

		s.A *= math.Round(n.Opacity*255) / 255
		c = gen.Blend(limage.CompositeNormal, c, s)
	}

	return c
}

// largeSide is a side of a canvas around a limit of some kind of number.
func largeSide(t *rt.T) int {
	return t.Pick(127, 128, 255, 256, 999, 1000, 32767, 32768, 65535, 65536, 70000, 262144, 1<<20, 1<<24, 1<<31-1, t.R(30, 1000), t.R(1000, 1<<20))
}

// coords lists the coordinates, within a canvas that may be large, that are
// worth looking at.
func coords(t *rt.T, n int, root []*gen.OraNode, at func(*gen.OraNode) int) []int {
	var l []int

	if n <= 40 {
		for k := 0; k < n; k++ {
			l = append(l, k)
		}

		return l
	}

	seen := map[int]bool{}
	add := func(k int) {
		if k >= 0 && k < n && !seen[k] {
			seen[k] = true
			l = append(l, k)
		}
	}

	var walk func(ns []*gen.OraNode, off int)

	walk = func(ns []*gen.OraNode, off int) {
		for _, c := range ns {
			if c.Stack {
				walk(c.Kids, off+at(c))

				continue
			}

			for k := -1; k < 10; k++ {
				add(off + at(c) + k)
			}
		}
	}

	walk(root, 0)
	add(0)
	add(n - 1)
	add(t.N(n))
	t.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })

	if len(l) > 60 {
		l = l[:60]
	}

	return l
}

var c16 = &rt.Check{
	ID: "C16", Level: "exploration",
	Rule: "OpenRaster files written by the harness's own generator (entry order, stored and deflated entries, extra entries, attribute order, quoting, escapes, comments, processing instructions, unknown elements with layers inside, unknown attributes; up to 3 levels of stacks with offsets of either sign, layers inside, across and off the canvas, far groups, canvases of up to 2147483647 pixels a side, 8 kinds of PNG, shared sources), decoded; every layer's properties, place on the canvas and pixels compared with the description; flattened canvases of Normal layers compared with a floating-point fold. Non-trivial: every file; counted by hash of stack.xml.",
	N:    rt.Cases(15000, 300000), MinKeys: 8000,
	Run: func(t *rt.T) {
		o := &gen.OraForeign{R: t.Rng, W: t.R(1, 30), H: t.R(1, 30), Depth: t.N(4), Normal: t.P(4), Inside: t.P(5)}
		if t.P(10) {
			o.W = largeSide(t)
		}

		if t.P(10) {
			o.H = largeSide(t)
		}

		d, es, x := o.Make()
		b := gen.WriteZip(es)
		t.Describe("%s", x)
		img := decode(t, b)
		canvas := image.Rect(0, 0, d.W, d.H)
		f := foreign{t: t, canvas: canvas}
		f.compare(d.Root, img, image.Point{}, image.Point{}, "image")

		if ib := img.Bounds(); !ib.In(canvas) {
			t.Fail("bounds are %v, the canvas is %v", ib, canvas)
		}

		if o.Normal {
			ys := coords(t, d.H, d.Root, func(n *gen.OraNode) int { return n.Y })

			for _, x := range coords(t, d.W, d.Root, func(n *gen.OraNode) int { return n.X }) {
				for _, y := range ys {
					got, want := img.At(x, y), fold(d.Root, image.Pt(x, y))
					t.Eval(1)

					if e := gen.PremulDiff(got, want); e > 60 {
						t.Fail("flattened pixel (%d,%d) is %v, want %v", x, y, gen.Pre16(got), want.Premul())
					}
				}
			}

			t.Count("flattened_canvases_compared", 1)
		}

		t.Count("leaf_pictures_compared", f.leaves)
		t.Key(rt.HashS(x))
		t.Sample("%s", x)
	},
}

// --- C17 ----------------------------------------------------------------------

// sane reads every pixel of an image, flattened and layer by layer, and
// complains of broken ones.
func sane(t *rt.T, img limage.Image) {
	if img == nil {
		t.Fail("no error and no image")
	}

	b := img.Bounds()
	if b.Dx() > 300 || b.Dy() > 300 {
		b = b.Intersect(image.Rect(-5, -5, 300, 300))
	}

	for y := b.Min.Y - 1; y < b.Max.Y+1; y++ {
		for x := b.Min.X - 1; x < b.Max.X+1; x++ {
			if img.At(x, y) == nil {
				t.Fail("pixel (%d,%d) is nil", x, y)
			}
		}
	}

	gen.Walk(img, func(path string, i image.Image) {
		if l, ok := i.(limage.Layer); ok && l.Image == nil {
			t.Fail("%s has no picture", path)
		}

		i.ColorModel()

		b := i.Bounds()
		if b.Dx() > 300 || b.Dy() > 300 {
			b = b.Intersect(image.Rect(-5, -5, 300, 300))
		}

		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				if i.At(x, y) == nil {
					t.Fail("pixel (%d,%d) of %s is nil", x, y, path)
				}
			}
		}
	})
}

// try decodes, watching for panics and memory.
func try(t *rt.T, b []byte, content int) (limage.Image, error, error) {
	zr, err := gen.OpenZip(b)
	if err != nil {
		return nil, err, err
	}

	var (
		img  limage.Image
		conf image.Config
		cerr error
		m, n runtime.MemStats
	)

	runtime.ReadMemStats(&m)

	t.Guard("Decode", func() { img, err = ora.Decode(zr) })

	runtime.ReadMemStats(&n)
	t.Eval(1)

	if got, limit := n.TotalAlloc-m.TotalAlloc, uint64(8<<20)+400*uint64(content); got > limit {
		t.Fail("decoding %d bytes of content allocates %d bytes", content, got)
	}

	t.Guard("DecodeConfig", func() { conf, cerr = ora.DecodeConfig(zr) })

	if err == nil {
		t.Guard("reading pixels", func() { sane(t, img) })
		t.Count("decoded", 1)

		if cerr != nil {
			t.Fail("Decode succeeds but DecodeConfig fails: %v", cerr)
		}

		if conf.Width < 0 || conf.Height < 0 {
			t.Fail("a size of %dx%d", conf.Width, conf.Height)
		}
	} else {
		t.Count("refused", 1)
	}

	return img, err, cerr
}

func content(es []gen.ZipEntry) int {
	n := 0
	for _, e := range es {
		n += len(e.Data) + 100
	}

	return n
}

const (
	mtTruncate = iota
	mtDropEntry
	mtMime
	mtRoot
	mtSource
	mtNumber
	mtPicture
	mtXMLByte
	mtZipByte
	mtDeep
	mtTag
	mtStackEntry
	nMutations
)

var c17 = &rt.Check{
	ID: "C17", Level: "exploration",
	Rule: "valid files from the generator of C16 broken in 12 ways: stack.xml cut at every byte, entries dropped or emptied, mimetype, root element, sources, numbers and pictures garbled, tags removed or doubled, random bytes of the XML or of the archive changed, nesting up to a million deep; decoded with monitors for panics, stack overflow, CPU time and bytes allocated; the error compared with the one due; decoded images read in every pixel. Non-trivial: files that differ from the valid one; counted by hash of the content.",
	N:    rt.Cases(9000, 250000), MinKeys: 8000, MemLimit: 6 << 30,
	Run: func(t *rt.T) {
		o := &gen.OraForeign{R: t.Rng, W: t.R(1, 20), H: t.R(1, 20), Depth: t.N(3), Plain: t.B()}
		d, es, x := o.Make()
		si, mi := 0, 0

		for n, e := range es {
			switch e.Name {
			case "stack.xml":
				si = n
			case "mimetype":
				mi = n
			}
		}

		if _, err, _ := try(t, gen.WriteZip(es), content(es)); err != nil {
			t.Describe("%s", x)
			t.Fail("the valid file is refused: %v", err)
		}

		var (
			confErr error
			head    bool
		)

		run := func(what string, es []gen.ZipEntry) error {
			xml := ""

			for _, e := range es {
				if e.Name == "stack.xml" {
					xml = string(e.Data)
				}
			}

			if len(xml) > 1500 {
				xml = xml[:700] + " ... " + xml[len(xml)-700:]
			}

			t.Describe("%s: %s", what, xml)

			b := gen.WriteZip(es)

			var err error

			_, err, confErr = try(t, b, content(es))
			t.Key(rt.HashB(b))

			return err
		}
		with := func(s string) []gen.ZipEntry {
			c := append([]gen.ZipEntry(nil), es...)
			c[si].Data = []byte(s)

			return c
		}
		want := func(err, due error) {
			if due == nil && err == nil {
				t.Fail("no error")
			}

			if due != nil && !errors.Is(err, due) {
				t.Fail("the error is %v, want %v", err, due)
			}

			// what is wrong before the layers is wrong for DecodeConfig too
			if head && !errors.Is(confErr, due) {
				t.Fail("the error of DecodeConfig is %v, want %v", confErr, due)
			}
		}

		m := t.Idx % nMutations
		head = m == mtMime || m == mtRoot
		t.Count(fmt.Sprintf("mutation_%d", m), 1)

		switch m {
		case mtTruncate:
			end := strings.LastIndex(x, "</image>") + len("</image>")
			step := 1

			if len(x) > 600 && !t.Thorough {
				step = t.R(2, 7)
			}

			for n := t.N(step); n < end; n += step {
				want(run(fmt.Sprintf("cut after %d bytes", n), with(x[:n])), nil)
			}

			want(run("nothing", with("")), ora.ErrInvalidStack)
		case mtDropEntry:
			n := t.N(len(es))
			c := append(append([]gen.ZipEntry(nil), es[:n]...), es[n+1:]...)
			err := run("without "+es[n].Name, c)
			used := false

			for _, l := range d.Leaves {
				used = used || l.Src == es[n].Name
			}

			if n == si {
				head = true
				want(err, ora.ErrMissingStack)
			} else if used {
				want(err, ora.ErrInvalidSource)
			} else if err != nil && n != mi {
				t.Fail("an entry without use is missed: %v", err)
			}
		case mtMime:
			c := append([]gen.ZipEntry(nil), es...)
			s := []byte("image/openraster")

			switch t.N(5) {
			case 0:
				s[t.N(len(s))] ^= byte(1 << t.N(8))
			case 1:
				s = s[:t.N(len(s))]
			case 2:
				s = append(s, byte(t.U8()))
			case 3:
				s = []byte("application/zip ")
			case 4:
				s = []byte("image/x-krita")
			}

			c[mi].Data = s
			t.Shuffle(len(c), func(i, j int) { c[i], c[j] = c[j], c[i] })
			want(run(fmt.Sprintf("mimetype %q", s), c), ora.ErrInvalidMimeType)
		case mtRoot:
			attr := [2]string{fmt.Sprintf("w=%q ", fmt.Sprint(d.W)), fmt.Sprintf("h=%q ", fmt.Sprint(d.H))}
			body := "<stack/>"

			switch t.N(7) {
			case 6:
				k := t.N(2)
				attr[k] = attr[k][:1] + "=\"" + t.PickS("-1", "-20", "-2147483648") + "\" "
				want(run("negative size", with("<image "+attr[0]+attr[1]+">"+body+"</image>")), ora.ErrInvalidStack)
			case 0:
				want(run("no width", with("<image "+attr[1]+">"+body+"</image>")), ora.ErrInvalidStack)
			case 1:
				want(run("no height", with("<image "+attr[0]+">"+body+"</image>")), ora.ErrInvalidStack)
			case 2:
				want(run("no size", with("<image>"+body+"</image>")), ora.ErrInvalidStack)
			case 3:
				n := t.PickS("stack", "Image", "img", "layer", "a:imag")
				want(run("root "+n, with("<"+n+" "+attr[0]+attr[1]+">"+body+"</"+n+">")), ora.ErrInvalidStack)
			case 4:
				want(run("no root", with("<!-- only a comment -->"+t.PickS("", "\n", "<?pi?>"))), ora.ErrInvalidStack)
			case 5:
				v := badInt(t)
				k := t.N(2)
				attr[k] = attr[k][:1] + "=\"" + v + "\" "
				head = false
				want(run("bad size", with("<image "+attr[0]+attr[1]+">"+body+"</image>")), nil)

				if confErr == nil {
					t.Fail("DecodeConfig accepts the size")
				}
			}
		case mtSource:
			if len(d.Leaves) == 0 {
				return
			}

			l := d.Leaves[t.N(len(d.Leaves))]
			old := l.Src
			l.Src = t.PickS("", "nowhere.png", old+"x", "/"+old, strings.ToUpper(old)+"_", "data")
			for _, e := range es { // names alike may exist
				if e.Name == l.Src {
					l.Src += "~~"
				}
			}

			want(run("source "+l.Src, with(o.XML(d))), ora.ErrInvalidSource)
			l.Src = old
			want(run("no source", with(fmt.Sprintf(`<image w="%d" h="%d"><stack><layer name="a" x="1"/></stack></image>`, d.W, d.H))), ora.ErrInvalidSource)
		case mtNumber:
			v := badInt(t)
			k := t.PickS("x", "y", "opacity")

			if k == "opacity" {
				v = t.PickS("", "opaque", "0.5.5", "50%", "0,5", "--1", "0.5 ", "one")
			}

			if t.B() {
				want(run("bad "+k, with(fmt.Sprintf(`<image w="%d" h="%d"><stack><stack %s="%s"/></stack></image>`, d.W, d.H, k, v))), nil)
			} else if len(d.Leaves) > 0 {
				want(run("bad "+k, with(fmt.Sprintf(`<image w="%d" h="%d"><stack><layer %s="%s" src="%s"/></stack></image>`, d.W, d.H, k, v, gen.XMLText(t.Rng, d.Leaves[0].Src, '"')))), nil)
			}
		case mtPicture:
			if len(d.Leaves) == 0 {
				return
			}

			src := d.Leaves[t.N(len(d.Leaves))].Src
			c := append([]gen.ZipEntry(nil), es...)

			for n := range c {
				if c[n].Name != src {
					continue
				}

				b := append([]byte(nil), c[n].Data...)
				how := ""
				must := true

				switch t.N(4) {
				case 0:
					k := t.N(len(b) - 12) // the IEND chunk need not be there
					b, how = b[:k], "cut"
				case 1:
					b, how = nil, "empty"
				case 2:
					b, how = []byte(t.PickS("not a picture", "<svg/>", "GIF89a", "\x89PNG\r\n\x1a\n", "gimp xcf v003\x00\x00\x00\x00\x01")), "replaced"
				case 3:
					k := 8 + t.N(len(b)-8)
					if k >= 16 && k < 24 { // its size: the library for PNG believes it
						k = 24
					}

					b[k] ^= byte(1 << t.N(8))
					how, must = "changed", k < len(b)-16
				}

				c[n].Data = b
				err := run("picture "+how, c)

				if must {
					want(err, nil)
				}
			}
		case mtXMLByte:
			for k := 0; k < 25; k++ {
				b := []byte(x)
				for j := t.R(1, 3); j > 0; j-- {
					switch p := t.N(len(b)); t.N(4) {
					case 0:
						b[p] = t.U8()
					case 1:
						b[p] = "<>/\"'&;=! -?]0"[t.N(14)]
					case 2:
						b = append(b[:p], b[p+1:]...)
					case 3:
						b = append(b[:p], append([]byte(t.PickS("<layer>", "</stack>", "<stack>", "<!--", "]]>", "&#0;", "&x;", "<image w='1' h='1'>", "\xff", "99999999999999999999")), b[p:]...)...)
					}

					if len(b) == 0 {
						break
					}
				}

				run("XML changed", with(string(b)))
			}
		case mtZipByte:
			b := gen.WriteZip(es)
			t.Describe("archive bytes changed: %s", x)

			for k := 0; k < 25; k++ {
				c := append([]byte(nil), b...)

				for j := t.R(1, 3); j > 0; j-- {
					c[t.N(len(c))] = t.U8()
				}

				if t.P(4) {
					c = c[:t.N(len(c))]
				}

				if hugePNG(c) {
					continue
				}

				t.Key(rt.HashB(c))

				try(t, c, content(es)*4)
			}
		case mtDeep:
			n := t.Pick(1500, 20000, 300000, 1<<20)
			open, tail := "<stack>", ""

			switch t.N(4) {
			case 0: // never closed
			case 1:
				tail = strings.Repeat("</stack>", n) + "</stack></image>"
			case 2:
				open = "<x>"
				tail = strings.Repeat("</x>", n) + "</stack></image>"
			case 3:
				open = "<stack x='1' y='-1'>"
				tail = strings.Repeat("</stack>", n) + "</stack></image>"
			}

			err := run("deep", with(fmt.Sprintf("<image w='%d' h='%d'><stack>", d.W, d.H)+strings.Repeat(open, n)+tail))
			if open != "<x>" && tail == "" {
				want(err, nil)
			}
		case mtTag:
			// a tag lost or doubled breaks the XML
			var at []int

			for k := range x {
				if x[k] == '<' && strings.HasPrefix(x[k:], "</") {
					at = append(at, k)
				}
			}

			p := at[t.N(len(at))]
			e := p + strings.IndexByte(x[p:], '>') + 1

			if o.Plain { // no comments that may hold it
				want(run("end tag lost", with(x[:p]+x[e:])), nil)
				want(run("end tag doubled", with(x[:e]+x[p:])), nil)
				want(run("start tag lost", with(strings.Replace(x, "<stack>", "", 1))), nil)
			} else {
				run("end tag lost", with(x[:p]+x[e:]))
				run("end tag doubled", with(x[:e]+x[p:]))
			}
		case mtStackEntry:
			// another entry's content as the stack, or junk
			c := append([]gen.ZipEntry(nil), es...)
			c[si].Data = es[t.N(len(es))].Data

			if bytes.Equal(c[si].Data, es[si].Data) {
				c[si].Data = make([]byte, t.N(2000))
				for k := range c[si].Data {
					c[si].Data[k] = t.U8()
				}
			}

			want(run("not XML", c), nil)
		}

		t.Sample("mutation %d of %s", m, x)
	},
}

func badInt(t *rt.T) string {
	return t.PickS("", "x", "1.5", "1e3", "0x10", "99999999999999999999", "- 1", "1 ", "１", "1px", "+-2")
}

// hugePNG tells whether a picture in the archive says that it is larger than
// what a decoder of PNGs should be asked to allocate here.
func hugePNG(b []byte) bool {
	zr, err := gen.OpenZip(b)
	if err != nil {
		return false
	}

	for _, f := range zr.File {
		r, err := f.Open()
		if err != nil {
			continue
		}

		c, _, err := image.DecodeConfig(r)
		r.Close()

		if err == nil && (c.Width > 2000 || c.Height > 2000) {
			return true
		}
	}

	return false
}

// --- C18 ----------------------------------------------------------------------

var errInjected = errors.New("injected fault")

// faulty fails from the byte at limit on.
type faulty struct {
	left   int
	mode   int // 0: partial write and error, 1: error without writing, 2: a partial write with one error, then all is well
	hit    bool
	wrote  int
	closed bool
}

func (f *faulty) Write(p []byte) (int, error) {
	if f.hit && f.mode == 2 {
		f.wrote += len(p)

		return len(p), nil
	}

	if len(p) <= f.left && !f.hit {
		f.left -= len(p)
		f.wrote += len(p)

		return len(p), nil
	}

	f.hit = true
	n := f.left
	f.left = 0

	switch f.mode {
	case 0, 2:
		f.wrote += n

		return n, errInjected
	}

	return 0, errInjected
}

// faultyAt fails the reads that touch a byte, or by number.
type faultyAt struct {
	b      []byte
	at     int64 // byte, or -1
	call   int   // number of the call, or -1
	calls  int
	hit    int
	armed  bool
	mode   int
	always bool
}

func (f *faultyAt) ReadAt(p []byte, off int64) (int, error) {
	if f.armed {
		f.calls++

		if f.call >= 0 && f.calls > f.call && (f.always || f.hit == 0) || f.at >= 0 && off <= f.at && f.at < off+int64(len(p)) {
			f.hit++

			n := 0
			if f.at >= 0 && f.mode > 0 { // what precedes the byte arrives
				n = copy(p, f.b[off:f.at])
			}

			return n, errInjected
		}
	}

	return bytes.NewReader(f.b).ReadAt(p, off)
}

// same compares everything of two decoded images.
func same(a, b limage.Image) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d layers, want %d", len(b), len(a))
	}

	for n := range a {
		x, y := a[n], b[n]
		if x.Name != y.Name || x.LayerBounds != y.LayerBounds || x.Mode != y.Mode || x.Invisible != y.Invisible || x.Transparency != y.Transparency {
			return fmt.Sprintf("layer %d: %s, want %s", n, gen.DescribeImage(y), gen.DescribeImage(x))
		}

		g, ok1 := x.Image.(limage.Image)
		h, ok2 := y.Image.(limage.Image)

		if ok1 != ok2 {
			return fmt.Sprintf("layer %d is a %T, want a %T", n, y.Image, x.Image)
		}

		s := ""
		if ok1 {
			s = same(g, h)
		} else {
			s = gen.SamePicture(x.Image, y.Image)
		}

		if s != "" {
			return fmt.Sprintf("layer %d: %s", n, s)
		}
	}

	return ""
}

var c18 = &rt.Check{
	ID: "C18", Level: "exploration",
	Rule: "Encode into writers that fail (with an error, with a partial write too, or once only) at every byte offset of the output (steps in long outputs); Decode over readers in which every read in turn fails, once or for good, or every read that touches a given byte fails; Decode of files, stored and deflated, with one byte changed at each offset. An injected fault that was reached without an error, or a different image without an error, is a violation. Non-trivial: faults that were reached; counted by hash of file, kind and place.",
	N:    rt.Cases(320, 9000), MinKeys: 20000,
	Run: func(t *rt.T) {
		switch t.Idx % 4 {
		case 0, 1:
			o := encodable(t)
			o.NoDissolve = true
			o.NoStress = !t.P(20)
			m := subject(t, o)
			t.Describe("%s", gen.DescribeImage(m))
			b := encode(t, m)
			h := rt.HashB(b)
			step := 1 + len(b)/400

			if t.Thorough {
				step = 1 + len(b)/3000
			}

			t.Count("outputs", 1)

			for n := t.N(step); n < len(b); n += step {
				w := &faulty{left: n, mode: t.N(3)}

				var err error

				t.Guard("Encode", func() { err = ora.Encode(w, m) })
				t.Eval(1)

				if !w.hit { // a shorter file, with random Dissolve
					continue
				}

				t.Count(fmt.Sprintf("write_faults_kind_%d", w.mode), 1)

				if err == nil {
					t.Fail("a write failed (kind %d) after %d of %d bytes, and Encode returned no error", w.mode, n, len(b))
				}

				t.Key(rt.Hash(h, uint64(n), uint64(w.mode)))
			}

			w := &faulty{left: math.MaxInt}
			if err := ora.Encode(w, m); err != nil {
				t.Fail("without faults: %v", err)
			}

			t.Sample("write faults over %d bytes: %s", len(b), gen.DescribeImage(m))
		default:
			o := &gen.OraForeign{R: t.Rng, W: t.R(1, 20), H: t.R(1, 20), Depth: t.N(3), Plain: t.B(), Store: t.B()}
			_, es, x := o.Make()
			b := gen.WriteZip(es)
			t.Describe("%s", x)
			ref := decode(t, b)
			h := rt.HashB(b)

			if t.Idx%4 == 2 {
				readFaults(t, b, ref, h)
			} else {
				step := 1
				if len(b) > 3000 && !t.Thorough {
					step = t.R(2, 1+len(b)/1500)
				}

				for n := t.N(step); n < len(b); n += step {
					c := append([]byte(nil), b...)

					if t.B() {
						c[n] ^= byte(1 << t.N(8))
					} else {
						c[n] ^= byte(t.R(1, 255))
					}

					if hugePNG(c) {
						continue
					}

					zr, err := gen.OpenZip(c)
					if err != nil {
						continue
					}

					var got limage.Image

					t.Guard("Decode", func() { got, err = ora.Decode(zr) })
					t.Eval(1)
					t.Count("changed_bytes", 1)

					if err == nil {
						t.Count("changed_bytes_without_effect", 1)

						if s := same(ref, got); s != "" {
							t.Fail("byte %d of %d changed from %#x to %#x (%q), and the image is a different one: %s", n, len(b), b[n], c[n], around(c, n), s)
						}
					}

					t.Key(rt.Hash(h, uint64(n), uint64(c[n])))
				}
			}

			t.Sample("read faults over %d bytes: %s", len(b), x)
		}
	},
}

func around(b []byte, n int) string {
	lo, hi := n-20, n+20
	if lo < 0 {
		lo = 0
	}

	if hi > len(b) {
		hi = len(b)
	}

	return string(b[lo:hi])
}

func readFaults(t *rt.T, b []byte, ref limage.Image, h uint64) {
	run := func(f *faultyAt, what string) {
		zr, err := zip.NewReader(f, int64(len(b)))
		if err != nil {
			t.Fail("zip: %v", err)
		}

		f.armed = true

		var got limage.Image

		t.Guard("Decode", func() { got, err = ora.Decode(zr) })
		t.Eval(1)

		if f.hit > 0 {
			t.Count("read_faults", 1)
			t.Key(rt.Hash(h, uint64(f.at+1), uint64(f.call+1), uint64(f.mode)))

			if err == nil {
				t.Fail("%s, and Decode returned no error", what)
			}
		} else if err != nil {
			t.Fail("%s, which Decode never reads, and it fails: %v", what, err)
		} else if s := same(ref, got); s != "" {
			t.Fail("%s, which Decode never reads, and the image is a different one: %s", what, s)
		}

		f.hit, f.calls = 0, 0

		var cerr error

		t.Guard("DecodeConfig", func() { _, cerr = ora.DecodeConfig(zr) })

		if f.hit > 0 && cerr == nil && f.always {
			t.Count("config_read_ahead", 1)
		}
	}

	for k := 0; k < 2; k++ {
		for n := 0; ; n++ {
			f := &faultyAt{b: b, at: -1, call: n, always: k == 1}
			run(f, fmt.Sprintf("read %d failed (for good: %v)", n, k == 1))

			if f.calls <= n {
				// fewer reads than that
				break
			}

			if n > 3000 {
				break
			}
		}
	}

	step := 1 + len(b)/300
	if t.Thorough {
		step = 1 + len(b)/2000
	}

	for n := t.N(step); n < len(b); n += step {
		run(&faultyAt{b: b, at: int64(n), call: -1, mode: t.N(2)}, fmt.Sprintf("reads of byte %d failed", n))
	}
}

var (
	_ color.Color
	_ io.Reader
)
