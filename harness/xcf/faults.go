package main

import (
	"bytes"
	"fmt"
	"image"
	"io"
	"math"
	"reflect"
	"sync"

	"verif/gen"
	"verif/rt"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/xcf"
)

// sameTree compares everything of two decoded images.
func sameTree(a, b limage.Image) string {
	return sameTrees(a, b, func(x, y limage.TextData) bool { return reflect.DeepEqual(x, y) })
}

// sameStored compares trees as far as files keep them.
func sameStored(a, b limage.Image) string {
	return sameTrees(a, b, func(x, y limage.TextData) bool {
		return reflect.DeepEqual(stripText(gen.StyledRunes(x), len(x) == 1), stripText(gen.StyledRunes(y), len(x) == 1))
	})
}

func sameTrees(a, b limage.Image, sameText func(x, y limage.TextData) bool) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d layers, want %d", len(b), len(a))
	}

	for n := range a {
		x, y := a[n], b[n]
		if x.Name != y.Name || x.LayerBounds != y.LayerBounds || x.Mode != y.Mode || x.Invisible != y.Invisible || x.Transparency != y.Transparency {
			return fmt.Sprintf("layer %d is %s, want %s", n, gen.DescribeImage(y), gen.DescribeImage(x))
		}

		i, m, td, is := peel(x.Image)
		j, k, ue, js := peel(y.Image)

		if is != js || !sameText(td, ue) {
			return fmt.Sprintf("layer %d has the text %+v, want %+v", n, ue, td)
		}

		if s := sameMask(m, k); s != "" {
			return fmt.Sprintf("layer %d: %s", n, s)
		}

		if (i == nil) != (j == nil) {
			return fmt.Sprintf("layer %d has a %T, want a %T", n, j, i)
		}

		if i == nil {
			continue
		}

		g, ok1 := i.(limage.Image)
		h, ok2 := j.(limage.Image)

		if ok1 != ok2 {
			return fmt.Sprintf("layer %d is a %T, want a %T", n, j, i)
		}

		s := ""
		if ok1 {
			s = sameTrees(g, h, sameText)
		} else {
			s = gen.SamePicture(i, j)
		}

		if s != "" {
			return fmt.Sprintf("layer %d: %s", n, s)
		}
	}

	return ""
}

// source is a file that fails reads, by number or by the bytes they touch.
type source struct {
	sync.Mutex
	b     []byte
	at    int64 // the byte, or -1
	call  int   // the number of the call, or -1
	good  bool  // fails all later ones too
	part  bool  // what precedes the fault arrives
	err   error
	calls int
	hit   int
}

func (s *source) ReadAt(p []byte, off int64) (int, error) {
	s.Lock()
	defer s.Unlock()

	s.calls++

	if len(p) == 0 {
		return 0, nil
	}

	if s.call >= 0 && (s.calls == s.call+1 || s.good && s.calls > s.call) {
		s.hit++

		n := 0
		if s.part && off < int64(len(s.b)) {
			n = copy(p[:len(p)-1], s.b[off:])
		}

		return n, s.err
	}

	if s.at >= 0 && off <= s.at && s.at < off+int64(len(p)) && s.at < int64(len(s.b)) && (s.good || s.hit == 0) {
		s.hit++

		n := 0
		if s.part {
			n = copy(p, s.b[off:s.at])
		}

		return n, s.err
	}

	return bytes.NewReader(s.b).ReadAt(p, off)
}

var faultErrs = []error{errInjected, errInjected, io.EOF, io.ErrUnexpectedEOF}

var decoders = []struct {
	name string
	f    func(io.ReaderAt) (limage.Image, error)
}{
	{"Decode", xcf.Decode},
	{"DecodeCompressed", xcf.DecodeCompressed},
}

var c25 = &rt.Check{
	ID: "C25", Level: "exploration",
	Rule: "Encode to destinations in which every positioned write in turn fails (nothing written, a part written, for good or once); Decode, DecodeCompressed and DecodeConfig of generated and encoded files over sources in which every read in turn fails, or every read that touches a given byte, once or for good, with or without a part of the data, with a foreign error or an end of file; and of files cut at every length. A fault that was reached without an error, or a different image without an error, is a violation. Non-trivial: faults that were reached and cut files; counted by hash of file, kind and place.",
	N:    rt.Cases(900, 20000), MinKeys: 60000,
	Run: func(t *rt.T) {
		if t.Idx%3 == 0 {
			writeFaults(t)

			return
		}

		var b []byte

		if t.P(3) {
			o := encodable(t)
			o.MaxSize = 12
			m := subject(t, o)
			t.Describe("%s", gen.DescribeImage(m))
			b = encode(t, m).b
		} else {
			o := &gen.XForeign{R: t.Rng, Version: -1, Base: -1, Depth: t.N(3), Texts: t.B(), Small: !t.P(6), MaxLayers: 3, Dissolve: true}
			f := o.Make()
			t.Describe("%s", f.Describe())
			b = f.Write(t.Rng, t.P(3))
		}

		var (
			d   = decoders[t.N(2)]
			h   = rt.HashB(b)
			ref limage.Image
			cfg image.Config
			err error
		)

		t.Guard(d.name, func() { ref, err = d.f(bytes.NewReader(b)) })

		if err != nil {
			t.Fail("without faults: %v", err)
		}

		if cfg, err = xcf.DecodeConfig(bytes.NewReader(b)); err != nil {
			t.Fail("DecodeConfig without faults: %v", err)
		}

		if t.Idx%3 == 1 {
			readFaults(t, b, d.name, d.f, ref, cfg, h)
		} else {
			cuts(t, b, d.name, d.f, ref, cfg, h)
		}

		t.Sample("%s over %d bytes: %s", d.name, len(b), t.Desc())
	},
}

func writeFaults(t *rt.T) {
	o := encodable(t)

	if !t.P(5) {
		o.MaxSize = 20
	}

	o.NoDissolve = true
	m := subject(t, o)
	t.Describe("%s", gen.DescribeImage(m))

	ref := encode(t, m)
	h := rt.HashB(ref.b)
	limit := 500

	if t.Thorough {
		limit = 3000
	}

	step := 1 + ref.calls/limit

	for n := 1 + t.N(step); n <= ref.calls; n += step {
		s := &sink{failAt: n, mode: t.N(3)}

		var err error

		t.Guard("Encode", func() { err = xcf.Encode(s, m) })
		t.Eval(1)

		if !s.hit {
			continue
		}

		t.Count(fmt.Sprintf("write_faults_kind_%d", s.mode), 1)

		if err == nil {
			t.Fail("write %d of %d failed (kind %d), and Encode returned no error", n, ref.calls, s.mode)
		}

		t.Key(rt.Hash(h, uint64(n), uint64(s.mode)))
	}

	t.Sample("write faults over %d writes: %s", ref.calls, gen.DescribeImage(m))
}

func readFaults(t *rt.T, b []byte, name string, dec func(io.ReaderAt) (limage.Image, error), ref limage.Image, cfg image.Config, h uint64) {
	run := func(s *source, what string) {
		var (
			got limage.Image
			err error
		)

		t.Guard(name, func() { got, err = dec(s) })
		t.Eval(1)

		if s.hit > 0 {
			t.Count("read_faults", 1)
			t.Key(rt.Hash(h, uint64(s.at+1), uint64(s.call+1), rt.HashS(what)))

			if err == nil {
				t.Fail("%s: %s, and there was no error", name, what)
			}

			if got != nil {
				t.Count("images_beside_errors", 1)
			}
		} else if err != nil {
			t.Fail("%s: %s, which is never read, and it fails: %v", name, what, err)
		} else if x := sameTree(ref, got); x != "" {
			t.Fail("%s: %s, which is never read, and the image is a different one: %s", name, what, x)
		}
	}

	config := func(s *source, what string) {
		var (
			got image.Config
			err error
		)

		t.Guard("DecodeConfig", func() { got, err = xcf.DecodeConfig(s) })
		t.Eval(1)

		if s.hit > 0 {
			t.Count("read_faults_of_the_configuration", 1)

			if err == nil {
				t.Fail("DecodeConfig: %s, and there was no error", what)
			}
		} else if err != nil || !reflect.DeepEqual(got, cfg) {
			t.Fail("DecodeConfig: %s, which is never read, and it gives %v, %v", what, got, err)
		}
	}

	limit := 400
	if t.Thorough {
		limit = 2000
	}

	for k := 0; k < 2; k++ {
		probe := &source{b: b, at: -1, call: -1}
		run(probe, "no read failed")

		step := 1 + probe.calls/limit
		for n := t.N(step); n < probe.calls; n += step {
			s := &source{b: b, at: -1, call: n, good: k == 1, part: t.B(), err: faultErrs[t.N(4)]}
			run(s, fmt.Sprintf("read %d of %d failed with %q (for good: %v, in part: %v)", n, probe.calls, s.err, s.good, s.part))
		}

		probe = &source{b: b, at: -1, call: -1}
		config(probe, "no read failed")

		for n := 0; n < probe.calls; n++ {
			s := &source{b: b, at: -1, call: n, good: k == 1, part: t.B(), err: faultErrs[t.N(4)]}
			config(s, fmt.Sprintf("read %d of %d failed with %q (for good: %v, in part: %v)", n, probe.calls, s.err, s.good, s.part))
		}
	}

	step := 1 + len(b)/limit
	for n := t.N(step); n < len(b); n += step {
		s := &source{b: b, at: int64(n), call: -1, good: t.B(), part: t.B(), err: faultErrs[t.N(4)]}
		what := fmt.Sprintf("reads of byte %d of %d failed with %q (for good: %v, in part: %v)", n, len(b), s.err, s.good, s.part)
		run(s, what)

		s.hit = 0
		config(s, what)
	}
}

func cuts(t *rt.T, b []byte, name string, dec func(io.ReaderAt) (limage.Image, error), ref limage.Image, cfg image.Config, h uint64) {
	limit := 1500
	if t.Thorough {
		limit = 10000
	}

	step := 1 + len(b)/limit

	for n := t.N(step); n < len(b); n += step {
		var (
			got  limage.Image
			gcfg image.Config
			err  error
			src  io.ReaderAt = bytes.NewReader(b[:n:n])
		)

		if t.B() { // end of file with the last bytes
			src = eager(b[:n:n])
		}

		t.Guard(name, func() { got, err = dec(src) })
		t.Eval(1)

		if err == nil {
			t.Count("cut_files_still_whole", 1)

			if x := sameTree(ref, got); x != "" {
				t.Fail("cut to %d of %d bytes, %s gives a different image: %s", n, len(b), name, x)
			}
		} else {
			t.Count("cut_files_refused", 1)
		}

		t.Guard("DecodeConfig", func() { gcfg, err = xcf.DecodeConfig(src) })

		if err == nil && !reflect.DeepEqual(gcfg, cfg) {
			t.Fail("cut to %d of %d bytes, DecodeConfig gives %v, want %v", n, len(b), gcfg, cfg)
		}

		t.Key(rt.Hash(h, uint64(n)))
	}
}

// eager reports the end of the file with the last bytes.
type eager []byte

func (e eager) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(e)) {
		return 0, io.EOF
	}

	n := copy(p, e[off:])
	if off+int64(n) == int64(len(e)) {
		return n, io.EOF
	}

	return n, nil
}

var _ = math.Pi
