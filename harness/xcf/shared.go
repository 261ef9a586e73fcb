package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"io"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/gen"
	"verif/rt"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/ora"
	"vimagination.zapto.org/limage/xcf"
)

// oraTree leaves out what OpenRaster has no place for.
func oraTree(o *gen.Tree) {
	o.Snug = true
	o.GroupMasks = o.GroupMasks && o.NoDissolve // such a group is stored flat
}

// --- C27 ----------------------------------------------------------------------

// leaves lists the pictures of a decoded image.
func leaves(i limage.Image) (ls []image.Image) {
	for _, l := range i {
		in, _, _, _ := peel(l.Image)

		if g, ok := in.(limage.Image); ok {
			ls = append(ls, leaves(g)...)
		} else if in != nil {
			ls = append(ls, in)
		}
	}

	return ls
}

func colours(m color.Model) []color.Color {
	switch m := m.(type) {
	case color.Palette:
		return m
	case lcolor.AlphaPalette:
		return m
	}

	return nil
}

func samePalette(a, b []color.Color) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d colours, want %d", len(b), len(a))
	}

	for n := range a {
		if !gen.SameColour(a[n], b[n]) {
			return fmt.Sprintf("colour %d is %v, want %v", n, b[n], a[n])
		}
	}

	return ""
}

// checkConfig compares the configuration of an XCF file with what it should
// be, and with the decoded image.
func checkConfig(t *rt.T, b []byte, w, h, base int, palette []color.Color) {
	var (
		c, d image.Config
		err  error
		name string
	)

	t.Guard("DecodeConfig", func() { c, err = xcf.DecodeConfig(bytes.NewReader(b)) })
	t.Eval(1)

	if err != nil {
		t.Fail("DecodeConfig fails: %v", err)
	}

	t.Guard("image.DecodeConfig", func() { d, name, err = image.DecodeConfig(bytes.NewReader(b)) })

	if err != nil || name != "xcf" || !reflect.DeepEqual(c, d) {
		t.Fail("image.DecodeConfig gives %v, %q, %v; DecodeConfig %v", d, name, err, c)
	}

	if c.Width != w || c.Height != h {
		t.Fail("the size is %dx%d, want %dx%d", c.Width, c.Height, w, h)
	}

	t.Count(fmt.Sprintf("configurations_of_base_type_%d", base), 1)

	img := decode(t, b, t.B())

	switch base {
	case 0:
		if c.ColorModel != color.NRGBAModel {
			t.Fail("the colour model of an RGB image is %v", c.ColorModel)
		}
	case 1:
		if c.ColorModel != lcolor.GrayAlphaModel {
			t.Fail("the colour model of a grey image is %v", c.ColorModel)
		}
	case 2:
		p, ok := c.ColorModel.(lcolor.AlphaPalette)
		if !ok {
			t.Fail("the colour model of an indexed image is a %T", c.ColorModel)
		}

		if palette != nil {
			if s := samePalette(palette, p); s != "" {
				t.Fail("the palette: %s", s)
			}
		}

		for _, l := range leaves(img) {
			if s := samePalette(p, colours(l.ColorModel())); s != "" {
				t.Fail("the palette of a layer, a %T: %s", l, s)
			}

			t.Count("palettes_of_layers_compared", 1)
		}

		return
	}

	for _, l := range leaves(img) {
		switch m := l.ColorModel(); {
		case base == 0 && (m == color.NRGBAModel || m == lcolor.RGBModel):
		case base == 1 && (m == color.GrayModel || m == lcolor.GrayAlphaModel):
		default:
			t.Fail("a layer, a %T, of base type %d has the colour model %v", l, base, m)
		}
	}
}

var c27 = &rt.Check{
	ID: "C27", Level: "exploration",
	Rule: "XCF and ORA files of the harness's generators and files written by the encoders from random trees in each colour model: DecodeConfig (and image.DecodeConfig) compared with the size, base type and palette of the description, the bounds and colour model of the encoded image, and the colour models and palettes of the decoded layers. Non-trivial: every file; counted by hash of the file.",
	N:    rt.Cases(30000, 500000), MinKeys: 20000,
	Run: func(t *rt.T) {
		switch t.Idx % 4 {
		case 0, 1:
			o := &gen.XForeign{R: t.Rng, Version: -1, Base: -1, Depth: t.N(3), Texts: t.P(3), Small: !t.P(4), Dissolve: true}
			f := o.Make()

			if t.P(8) { // sizes nobody would draw on
				f.W, f.H = t.Pick(1, 1000, 262144, 65536), t.Pick(1, 999, 524288, 65535)
			}

			b := f.Write(t.Rng, t.P(4))
			t.Describe("%s", f.Describe())

			var pal []color.Color

			for _, c := range f.Palette {
				pal = append(pal, c)
			}

			checkConfig(t, b, f.W, f.H, f.Base, pal)
			t.Key(rt.HashB(b))
			t.Sample("%s", f.Describe())
		case 2:
			m := subject(t, encodable(t))
			t.Describe("%s", gen.DescribeImage(m))
			b := encode(t, m).b
			k := targetOf(m)

			var pal []color.Color

			for _, c := range colours(m.ColorModel()) {
				pal = append(pal, lcolor.RGBModel.Convert(c))
			}

			if k.base == 2 {
				for _, p := range k.palette {
					if p.A < 1 { // stored without
						pal = nil
					}
				}
			}

			size := m.Bounds().Size()
			checkConfig(t, b, size.X, size.Y, k.base, pal)
			t.Key(rt.HashB(b))
			t.Sample("%s", gen.DescribeImage(m))
		case 3:
			var (
				b    []byte
				size image.Point
			)

			if t.B() {
				o := &gen.OraForeign{R: t.Rng, W: t.R(1, 30), H: t.R(1, 30), Depth: t.N(3)}

				if t.P(6) {
					o.W, o.H = t.Pick(1, 1000, 5000), t.Pick(1, 1001, 4000)
				}

				d, es, x := o.Make()
				b = gen.WriteZip(es)
				size = image.Pt(d.W, d.H)
				t.Describe("%s", x)
			} else {
				o := encodable(t)
				oraTree(o)
				m := subject(t, o)
				t.Describe("%s", gen.DescribeImage(m))

				var buf bytes.Buffer

				t.Guard("ora.Encode", func() {
					if err := ora.Encode(&buf, m); err != nil {
						t.Fail("ora.Encode fails: %v", err)
					}
				})

				b = buf.Bytes()
				size = m.Bounds().Size()
			}

			zr, err := gen.OpenZip(b)
			if err != nil {
				t.Fail("zip: %v", err)
			}

			var c image.Config

			t.Guard("ora.DecodeConfig", func() { c, err = ora.DecodeConfig(zr) })
			t.Eval(1)

			if err != nil {
				t.Fail("ora.DecodeConfig fails: %v", err)
			}

			if c.ColorModel != color.NRGBAModel || c.Width != size.X || c.Height != size.Y {
				t.Fail("the configuration is %dx%d of %v, want %v", c.Width, c.Height, c.ColorModel, size)
			}

			if _, err := ora.Decode(zr); err != nil {
				t.Fail("ora.Decode fails: %v", err)
			}

			t.Count("configurations_of_ora_files", 1)
			t.Key(rt.HashB(b))
		}
	},
}

// --- C28 ----------------------------------------------------------------------

// gang runs functions at the same time, starting together.
func gang(t *rt.T, n int, f func(k int, r *rt.Rng) string) {
	var (
		wg    sync.WaitGroup
		start = make(chan struct{})
		out   = make([]string, n)
		seeds = make([]uint64, n)
	)

	for k := range seeds {
		seeds[k] = t.U64()
	}

	for k := 0; k < n; k++ {
		wg.Add(1)

		go func(k int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					out[k] = fmt.Sprintf("panic: %v", e)
				}
			}()

			r := rt.NewRng(seeds[k])
			<-start

			for j := r.N(3); j > 0; j-- {
				runtime.Gosched()
			}

			out[k] = f(k, r)
		}(k)
	}

	close(start)
	wg.Wait()
	t.Eval(n)

	for k, s := range out {
		if s != "" {
			t.Fail("goroutine %d of %d: %s", k, n, s)
		}
	}
}

// view is a picture with what it shows at some points.
type view struct {
	path string
	i    image.Image
	pts  []image.Point
	cs   []color.Color
	skip bool
}

// views reads points of every picture of a tree.
func views(t *rt.T, img image.Image, n int) (vs []*view) {
	gen.Walk(img, func(path string, i image.Image) {
		v := &view{path: path, i: i, skip: gen.Dissolves(i)}
		b := i.Bounds()

		for k := 0; k < n; k++ {
			p := image.Pt(t.R(b.Min.X-1, b.Max.X), t.R(b.Min.Y-1, b.Max.Y))
			v.pts = append(v.pts, p)
			v.cs = append(v.cs, i.At(p.X, p.Y))
		}

		vs = append(vs, v)
	})

	return vs
}

func readViews(vs []*view, r *rt.Rng, n int) string {
	for k := 0; k < n; k++ {
		v := vs[r.N(len(vs))]
		j := r.N(len(v.pts))
		p := v.pts[j]
		c := v.i.At(p.X, p.Y)

		if !v.skip && !gen.SameColour(c, v.cs[j]) {
			return fmt.Sprintf("pixel %v of %s is %v, alone %v", p, v.path, c, v.cs[j])
		}

		if k%8 == 0 {
			v.i.Bounds()
			v.i.ColorModel()
		}

		if r.P(16) {
			runtime.Gosched()
		}
	}

	return ""
}

func errText(err error) string {
	if err == nil {
		return ""
	}

	return err.Error()
}

var c28 = &rt.Check{
	ID: "C28", Level: "exploration", Race: true,
	Rule: "under the race detector, with goroutines started together and yields and sleeps within the reads of the source: one XCF decoded many times, in parallel and in turn, valid (compared with the description and with each other) and broken in several layers at once (the errors compared); pixels of eagerly decoded, deferred and generated images read by several goroutines at once, flattened and per layer, compared with what they are alone; one image encoded to XCF and ORA by several goroutines while others read it, the bytes compared; one ORA archive decoded by several goroutines; all at once. Non-trivial: every gang of goroutines; counted by hash of the file or image and kind.",
	N:    rt.Cases(1500, 40000), MinKeys: 1200,
	Run: func(t *rt.T) {
		gangs := t.R(2, 8)
		kind := t.Idx % 6
		t.Count(fmt.Sprintf("gangs_of_kind_%d", kind), 1)

		o := &gen.XForeign{R: t.Rng, Version: -1, Base: -1, Depth: t.N(3), Texts: t.P(3), Small: !t.P(4), MaxLayers: 8, Dissolve: t.P(4), OnlyRLE: t.B(), Repeat: t.P(10)}

		switch kind {
		case 0, 1: // decoding one source
			f := o.Make()
			b := f.Write(t.Rng, t.P(3))
			t.Describe("%s", f.Describe())

			broken := kind == 1 && !t.P(4)

			if broken { // in several places
				if d := gen.TileBytes(b); len(d) > 0 && t.B() {
					for j := t.R(1, 10); j > 0; j-- {
						b[d[t.N(len(d))]] = t.U8()
					}
				} else {
					for j := t.R(2, 12); j > 0; j-- {
						b[t.R(20, len(b)-1)] = t.Edge8()
					}
				}
			}

			dec := decoders[t.N(2)]

			var (
				ref limage.Image
				err error
			)

			t.Guard(dec.name, func() { ref, err = dec.f(bytes.NewReader(b)) })

			if !broken {
				if err != nil {
					t.Fail("%s fails: %v", dec.name, err)
				}

				c := foreign{t: t, f: f, canvas: image.Rect(0, 0, f.W, f.H)}
				c.compare(f.Layers, ref, image.Point{}, "image", true)
			} else if err != nil {
				t.Count("broken_files_refused", 1)
			}

			src := &yielding{ReaderAt: bytes.NewReader(b), seed: t.U64()}

			one := func(src io.ReaderAt) string {
				got, e := dec.f(src)
				if errText(e) != errText(err) {
					return fmt.Sprintf("the error is %v, alone it is %v", e, err)
				}

				if e != nil {
					return ""
				}

				return sameTree(ref, got)
			}

			orders := map[uint64]struct{}{}

			for k := 0; k < 6; k++ { // in turn
				if k%2 == 0 {
					if s := one(src); s != "" {
						t.Fail("decoded again: %s", s)
					}

					continue
				}

				rec := &recording{ReaderAt: src}

				if s := one(rec); s != "" {
					t.Fail("decoded again: %s", s)
				}

				orders[rt.Hash(rec.offs...)] = struct{}{}
			}

			t.Count("orders_of_reads_seen", len(orders))

			if len(orders) > 1 {
				t.Count("files_read_in_several_orders", 1)
			}

			gang(t, gangs, func(k int, r *rt.Rng) string {
				if k == 1 {
					for j := 0; j < 3; j++ {
						if _, e := xcf.DecodeConfig(src); e != nil && err == nil {
							return fmt.Sprintf("DecodeConfig fails: %v", e)
						}
					}
				}

				return one(src)
			})
			t.Key(rt.HashB(b))
		case 2: // reading a deferred (or not) image
			o.OnlyRLE = !t.P(5)

			if t.B() {
				o.Small, o.MaxSize = false, 180
			}

			f := o.Make()
			b := f.Write(t.Rng, t.P(3))
			t.Describe("%s", f.Describe())

			alone := decode(t, b, false)
			vs := views(t, alone, 60)
			shared := decode(t, b, !t.P(4))

			var ws []*view

			gen.Walk(shared, func(path string, i image.Image) { ws = append(ws, &view{path: path, i: i}) })

			if len(ws) != len(vs) {
				t.Fail("%d pictures, want %d", len(ws), len(vs))
			}

			for n := range ws {
				ws[n].pts, ws[n].cs, ws[n].skip = vs[n].pts, vs[n].cs, vs[n].skip
			}

			gang(t, gangs, func(k int, r *rt.Rng) string { return readViews(ws, r, 500) })
			t.Count("concurrent_pixels", 500*gangs)
			t.Key(rt.HashB(b))
		case 3: // encoding and reading one image
			e := encodable(t)
			e.NoDissolve = t.B()
			m := subject(t, e)
			desc := gen.DescribeImage(m)
			t.Describe("%s", desc)
			fixed := !gen.Dissolves(m)
			vs := views(t, m, 30)
			want := encode(t, m)

			gang(t, gangs, func(k int, r *rt.Rng) string {
				if k%3 == 0 {
					return readViews(vs, r, 200)
				}

				s := new(sink)
				if err := xcf.Encode(s, m); err != nil {
					return fmt.Sprintf("Encode fails: %v", err)
				}

				if fixed && !bytes.Equal(s.b, want.b) {
					return "Encode gives other bytes"
				}

				return ""
			})
			t.Key(rt.HashS(desc))
		case 4: // the same as ORA
			e := encodable(t)
			e.NoDissolve = t.B()
			oraTree(e)
			m := subject(t, e)
			desc := gen.DescribeImage(m)
			t.Describe("%s", desc)
			fixed := !gen.Dissolves(m)
			vs := views(t, m, 30)

			var want bytes.Buffer

			if err := ora.Encode(&want, m); err != nil {
				t.Fail("ora.Encode fails: %v", err)
			}

			zr, err := gen.OpenZip(want.Bytes())
			if err != nil {
				t.Fail("zip: %v", err)
			}

			ref, err := ora.Decode(zr)
			if err != nil {
				t.Fail("ora.Decode fails: %v", err)
			}

			gang(t, gangs, func(k int, r *rt.Rng) string {
				switch k % 4 {
				case 0:
					return readViews(vs, r, 200)
				case 1:
					got, err := ora.Decode(zr)
					if err != nil {
						return fmt.Sprintf("ora.Decode fails: %v", err)
					}

					return sameTree(ref, got)
				case 2:
					if _, err := ora.DecodeConfig(zr); err != nil {
						return fmt.Sprintf("ora.DecodeConfig fails: %v", err)
					}
				}

				var got bytes.Buffer

				if err := ora.Encode(&got, m); err != nil {
					return fmt.Sprintf("ora.Encode fails: %v", err)
				}

				if fixed && !bytes.Equal(got.Bytes(), want.Bytes()) {
					return "ora.Encode gives other bytes"
				}

				return ""
			})
			t.Key(rt.HashS(desc))
		case 5: // all at once on one decoded image
			f := o.Make()
			b := f.Write(t.Rng, t.P(3))
			t.Describe("%s", f.Describe())

			deferred := !t.P(4)
			alone := decode(t, b, deferred)
			img := decode(t, b, deferred)
			vs := views(t, alone, 40)

			var ws []*view

			gen.Walk(img, func(path string, i image.Image) { ws = append(ws, &view{path: path, i: i}) })

			for n := range ws {
				ws[n].pts, ws[n].cs, ws[n].skip = vs[n].pts, vs[n].cs, vs[n].skip
			}

			fixed := !gen.Dissolves(img)

			var wantX, wantO []byte

			if !img.Bounds().Empty() && encodableDecoded(alone) {
				wantX = encode(t, alone).b

				var buf bytes.Buffer

				if err := ora.Encode(&buf, alone); err != nil {
					t.Fail("ora.Encode fails: %v", err)
				}

				wantO = buf.Bytes()
			}

			src := &yielding{ReaderAt: bytes.NewReader(b), seed: t.U64()}

			gang(t, gangs, func(k int, r *rt.Rng) string {
				switch {
				case k%4 == 1 && wantX != nil:
					s := new(sink)
					if err := xcf.Encode(s, img); err != nil {
						return fmt.Sprintf("Encode fails: %v", err)
					}

					if fixed && !bytes.Equal(s.b, wantX) {
						return "Encode gives other bytes"
					}
				case k%4 == 2 && wantO != nil:
					var buf bytes.Buffer

					if err := ora.Encode(&buf, img); err != nil {
						return fmt.Sprintf("ora.Encode fails: %v", err)
					}

					if fixed && !bytes.Equal(buf.Bytes(), wantO) {
						return "ora.Encode gives other bytes"
					}
				case k%4 == 3:
					got, err := decoders[k/4%2].f(src)
					if err != nil {
						return fmt.Sprintf("decoding fails: %v", err)
					}

					return sameTree(alone, got)
				default:
					return readViews(ws, r, 400)
				}

				return ""
			})
			t.Key(rt.HashB(b))
		}

		// nothing goes on
		base := 3

		for k := 0; runtime.NumGoroutine() > base+10; k++ {
			if k > 3000 {
				t.Fail("%d goroutines are left", runtime.NumGoroutine())
			}

			time.Sleep(time.Millisecond)
		}

		t.Sample("%d goroutines, kind %d: %s", gangs, kind, t.Desc())
	},
}

// encodableDecoded tells whether a decoded image has no empty layers.
func encodableDecoded(i limage.Image) bool {
	for _, l := range i {
		if l.LayerBounds.Empty() {
			return false
		}

		in, _, _, _ := peel(l.Image)

		if g, ok := in.(limage.Image); ok && (len(g) == 0 || !encodableDecoded(g)) {
			return false
		}
	}

	return len(i) > 0
}

// --- C29 ----------------------------------------------------------------------

type failingWriter struct {
	left int
	err  error
}

func (f *failingWriter) Write(p []byte) (int, error) {
	if len(p) > f.left {
		n := f.left
		f.left = 0

		return n, f.err
	}

	f.left -= len(p)

	return len(p), nil
}

const twinEnv = "VERIF_TWIN"

func digest(desc string, b []byte) string {
	return fmt.Sprintf("%x %x-%d", rt.HashS(desc), rt.HashB(b), len(b))
}

// twin runs the case in another process, in another time zone and with another
// number of threads, and gives its digest.
func twin(t *rt.T) string {
	f, err := os.CreateTemp("", "verif-twin-")
	if err != nil {
		return ""
	}

	f.Close()

	defer os.Remove(f.Name())

	null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	if err != nil {
		return ""
	}

	defer null.Close()

	exe, _ := os.Executable()
	cmd := exec.Command(exe, "C29", "--worker", "0", "1", "0", os.DevNull, strconv.Itoa(t.Idx))
	cmd.Env = append(os.Environ(), twinEnv+"="+f.Name(), "TZ=Asia/Tokyo", "LANG=tr_TR.UTF-8", "GOMAXPROCS=1")
	cmd.Dir = "/"
	cmd.ExtraFiles = []*os.File{null}

	if cmd.Run() != nil {
		return ""
	}

	b, _ := os.ReadFile(f.Name())

	return string(b)
}

// later encodes images again after the clock has moved on by more than the
// resolution of the times in zip files.
func later(t *rt.T) {
	type kept struct {
		m image.Image
		o bool
		b []byte
	}

	var ks []kept

	for n := 0; n < 12; n++ {
		k := kept{o: n%2 == 0}
		o := encodable(t)
		o.NoDissolve = true

		if k.o {
			oraTree(o)
		}

		k.m = subject(t, o)
		ks = append(ks, k)
	}

	for round := 0; round < 2; round++ {
		for n := range ks {
			k := &ks[n]
			t.Describe("%s", gen.DescribeImage(k.m))

			var b []byte

			if k.o {
				var buf bytes.Buffer

				if err := ora.Encode(&buf, k.m); err != nil {
					t.Fail("ora.Encode fails: %v", err)
				}

				b = buf.Bytes()
			} else {
				b = encode(t, k.m).b
			}

			if k.b == nil {
				k.b = b
			} else if !gen.Dissolves(k.m) && !bytes.Equal(b, k.b) {
				t.Fail("encoding again later (ORA: %v) gives other bytes", k.o)
			} else {
				t.Eval(1)
				t.Count("encodings_repeated_later", 1)
				t.Key(rt.HashB(b))
			}
		}

		if round == 0 {
			time.Sleep(2200 * time.Millisecond)
		}
	}
}

var c29 = &rt.Check{
	ID: "C29", Level: "exploration",
	Rule: "random trees (and decoded files, eager and deferred) encoded to XCF and ORA, twice, and to destinations that fail at a random place; a deep snapshot (structure, properties, raw pixel, mask and palette bytes, texts) taken before and after every encoding; the bytes of repeated encodings compared, at once, more than two seconds later, and (one case in 100) in another process; up to three generations of decoding and encoding compared in structure and pixels. Non-trivial: every image; counted by hash of its description and bytes.",
	N:    rt.Cases(6000, 150000), MinKeys: 4000,
	Run: func(t *rt.T) {
		if t.Idx < 8 {
			later(t)

			return
		}

		asOra := t.B()
		o := encodable(t)
		o.NoDissolve = !t.P(4)

		if asOra {
			oraTree(o)
		}

		var m image.Image

		if t.P(4) { // what was decoded
			fo := &gen.XForeign{R: t.Rng, Version: -1, Base: -1, Depth: t.N(3), Texts: t.P(3), Small: !t.P(4)}
			f := fo.Make()
			i := decode(t, f.Write(t.Rng, false), t.B())

			if !encodableDecoded(i) {
				return
			}

			m = i
			t.Describe("decoded: %s", gen.DescribeImage(m))
		} else {
			m = subject(t, o)
			t.Describe("%s", gen.DescribeImage(m))
		}

		fixed := !gen.Dissolves(m)

		enc := func(m image.Image, fail int) ([]byte, error) {
			if asOra {
				if fail >= 0 {
					w := &failingWriter{fail, errInjected}

					return nil, ora.Encode(w, m)
				}

				var buf bytes.Buffer

				err := ora.Encode(&buf, m)

				return buf.Bytes(), err
			}

			s := new(sink)
			if fail >= 0 {
				s.failAt, s.mode = fail/8+1, t.N(3)
			}

			err := xcf.Encode(s, m)

			return s.b, err
		}

		dec := func(b []byte) (i limage.Image) {
			t.Guard("decoding", func() {
				var err error

				if asOra {
					zr, e := gen.OpenZip(b)
					if e != nil {
						t.Fail("zip: %v", e)
					}

					i, err = ora.Decode(zr)
				} else {
					i, err = xcf.Decode(bytes.NewReader(b))
				}

				if err != nil {
					t.Fail("decoding fails: %v", err)
				}
			})

			return i
		}

		before := gen.Snapshot(m)

		check := func(what string) {
			t.Eval(1)
			t.Count("snapshots_compared", 1)

			if after := gen.Snapshot(m); fixed && !gen.SameSnap(before, after) {
				for n := range before {
					if n < len(after) && !reflect.DeepEqual(before[n], after[n]) {
						t.Fail("%s (ORA: %v) changes the image: %.300v, was %.300v", what, asOra, after[n], before[n])
					}
				}

				t.Fail("%s (ORA: %v) changes the image", what, asOra)
			}
		}

		if t.P(3) { // first, a failing one
			var err error

			n := t.N(2000)
			t.Guard("Encode", func() { _, err = enc(m, n) })

			if err != nil {
				t.Count("failed_encodings", 1)
			}

			check("a failing encoding")
		}

		var first []byte

		for k := 0; k < 2; k++ {
			var (
				b   []byte
				err error
			)

			t.Guard("Encode", func() { b, err = enc(m, -1) })

			if err != nil {
				t.Fail("Encode fails: %v", err)
			}

			check("encoding")

			if k == 0 {
				first = b
			} else if fixed && !bytes.Equal(first, b) {
				t.Fail("encoding again (ORA: %v) gives other bytes", asOra)
			}

			if t.P(4) {
				var err error

				n := t.N(len(b))
				t.Guard("Encode", func() { _, err = enc(m, n) })

				if err != nil {
					t.Count("failed_encodings", 1)
				}

				check("a failing encoding")
			}
		}

		if fixed {
			if f := os.Getenv(twinEnv); f != "" { // this is the other process
				os.WriteFile(f, []byte(digest(t.Desc(), first)), 0o600)

				return
			}

			if t.Idx%100 == 50 {
				if s := twin(t); s == "" || strings.Fields(s)[0] != strings.Fields(digest(t.Desc(), first))[0] {
					t.Count("processes_without_answer", 1)
				} else if s != digest(t.Desc(), first) {
					t.Fail("encoding (ORA: %v) in another process gives other bytes", asOra)
				} else {
					t.Count("encodings_in_another_process", 1)
				}
			}
		}

		if !asOra {
			// reading does not change it either
			for _, d := range []bool{false, true} {
				decode(t, first, d)
			}

			check("decoding")
		}

		a := dec(first)
		bytesA := first

		for g := 0; g < 2; g++ {
			b, err := enc(a, -1)
			if err != nil {
				t.Fail("encoding generation %d fails: %v", g+2, err)
			}

			c := dec(b)

			if s := sameStored(a, c); s != "" {
				t.Fail("generation %d differs (ORA: %v): %s", g+2, asOra, s)
			}

			t.Count("generations", 1)

			if g == 1 && fixed && !bytes.Equal(b, bytesA) {
				t.Fail("the files of generations 2 and 3 differ (ORA: %v)", asOra)
			}

			a, bytesA = c, b
		}

		t.Key(rt.HashB(first))
		t.Sample("ORA %v: %s", asOra, t.Desc())
	},
}
