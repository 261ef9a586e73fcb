package main

import (
	"bytes"
	"image"

	"verif/gen"
	"verif/rt"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/ora"
)

// --- C32 ----------------------------------------------------------------------

func toOra(t *rt.T, m image.Image) []byte {
	var b bytes.Buffer

	t.Guard("ora.Encode", func() {
		if err := ora.Encode(&b, m); err != nil {
			t.Fail("ora.Encode fails: %v", err)
		}
	})

	return b.Bytes()
}

func fromOra(t *rt.T, b []byte) limage.Image {
	var i limage.Image

	zr, err := gen.OpenZip(b)
	if err != nil {
		t.Fail("not a zip archive: %v", err)
	}

	t.Guard("ora.Decode", func() { i, err = ora.Decode(zr) })

	if err != nil {
		t.Fail("ora.Decode fails: %v", err)
	}

	return i
}

// viaXCF compares an image with what comes back from XCF.
func viaXCF(t *rt.T, m limage.Image, path string) limage.Image {
	s := encode(t, m)
	got := decode(t, s.b, t.B())
	c := trip{t: t, m: m, k: targetOf(m)}
	c.compare(gen.Canon(m), got, path, true)
	c.count()

	return got
}

// viaOra compares an image with what comes back from OpenRaster; ref is the same
// image decoded all at once.
func viaOra(t *rt.T, m, ref limage.Image, path string) limage.Image {
	got := fromOra(t, toOra(t, m))
	t.Count("leaf_pictures_compared_in_OpenRaster", gen.CompareOra(t, gen.CanonOra(ref), got, path))

	return got
}

var c32 = &rt.Check{
	ID: "C32", Level: "exploration",
	Rule: "XCF files of a foreign writer (versions 0 to 13, RGB, grey and indexed, groups, masks, texts), decoded at once or deferred, encoded as ORA and decoded again, and some of these as XCF again; ORA files of a foreign writer decoded, encoded as XCF and decoded again, and some of these as ORA again; every property of every layer and every pixel compared after every step. Images with layers that lie off the canvas, for which there is no PNG, are not made into ORA. Non-trivial: images that were converted; counted by hash of the file.",
	N:    rt.Cases(20000, 400000), MinKeys: 8000,
	Run: func(t *rt.T) {
		if t.Idx%2 == 0 {
			o := &gen.XForeign{R: t.Rng, Version: -1, Base: -1, Depth: t.N(4), Texts: t.P(3), Inside: !t.P(6), Small: !t.P(5), MaxLayers: 5}
			f := o.Make()
			b := f.Write(t.Rng, t.P(3))
			t.Describe("%s", f.Describe())

			ref := decode(t, b, false)

			if !encodableDecoded(ref) {
				t.Count("files_with_layers_off_the_canvas", 1)

				return
			}

			m := ref

			if t.B() {
				m = decode(t, b, true)
				t.Count("images_not_read_before_they_are_written", 1)
			}

			got := viaOra(t, m, ref, "XCF to ORA:")
			t.Key(rt.HashB(b))
			t.Sample("%s", t.Desc())

			if t.P(3) {
				viaXCF(t, got, "XCF to ORA to XCF:")
				t.Count("twice_converted", 1)
			}

			return
		}

		o := &gen.OraForeign{R: t.Rng, W: t.R(1, 30), H: t.R(1, 30), Depth: t.N(4), Inside: !t.P(4)}
		_, es, x := o.Make()
		b := gen.WriteZip(es)

		t.Describe("%s", x)

		m := fromOra(t, b)

		if m.Bounds().Empty() {
			t.Count("files_of_which_nothing_is_on_the_canvas", 1)

			return
		}

		got := viaXCF(t, m, "ORA to XCF:")
		t.Key(rt.HashB(b))
		t.Sample("%s", t.Desc())

		if t.P(3) && encodableDecoded(got) {
			viaOra(t, got, got, "ORA to XCF to ORA:")
			t.Count("twice_converted", 1)
		}
	},
}
