package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"image"
	"io"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"

	"verif/gen"
	"verif/rt"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/xcf"
)

// delivery is how a stream hands over its bytes.
type delivery struct {
	chunk    int  // at most so many bytes at once, 0: any
	random   bool // up to chunk
	none     bool // sometimes nothing, and no error
	eager    bool // the end of the file with the last bytes
	yield    bool
	failRead int // number of the read that fails, from 1
	failSeek int
	once     bool
	part     bool // with some of the bytes
	err      error
}

// stream is a source of bytes without protection against concurrent use, as
// sources with a position are.
type stream struct {
	delivery
	b     []byte
	pos   int64
	rng   *rt.Rng
	reads int
	seeks int
	hit   int
	early int // before any seek
	empty int
}

func (s *stream) Read(p []byte) (int, error) {
	s.reads++

	if s.yield && s.rng.P(4) {
		runtime.Gosched()
	}

	if s.failRead > 0 && (s.reads == s.failRead || s.reads > s.failRead && !s.once) {
		s.hit++

		if s.seeks == 0 {
			s.early++
		}

		n := 0
		if s.part && s.pos < int64(len(s.b)) {
			n = copy(p[:len(p)/2], s.b[s.pos:])
			s.pos += int64(n)
		}

		return n, s.err
	}

	if len(p) == 0 {
		return 0, nil
	}

	if s.none && s.empty < 3 && s.rng.P(4) {
		s.empty++

		return 0, nil
	}

	s.empty = 0

	if s.pos >= int64(len(s.b)) {
		return 0, io.EOF
	}

	if s.chunk > 0 {
		n := s.chunk
		if s.random {
			n = s.rng.R(1, n)
		}

		if n < len(p) {
			p = p[:n]
		}
	}

	n := copy(p, s.b[s.pos:])
	s.pos += int64(n)

	if s.eager && s.pos == int64(len(s.b)) {
		return n, io.EOF
	}

	return n, nil
}

var errWhence = errors.New("whence")

func (s *stream) Seek(off int64, whence int) (int64, error) {
	s.seeks++

	if s.failSeek > 0 && (s.seeks == s.failSeek || s.seeks > s.failSeek && !s.once) {
		s.hit++

		return 0, s.err
	}

	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += int64(len(s.b))
	}

	if off < 0 {
		return 0, errWhence
	}

	s.pos = off

	return off, nil
}

// seeker can only read and seek.
type seeker struct{ s *stream }

func (s seeker) Read(p []byte) (int, error)                { return s.s.Read(p) }
func (s seeker) Seek(off int64, whence int) (int64, error) { return s.s.Seek(off, whence) }

// plainReader can only read.
type plainReader struct{ s *stream }

func (s plainReader) Read(p []byte) (int, error) { return s.s.Read(p) }

// atReader reads, and reads at random.
type atReader struct {
	s  *stream
	ra io.ReaderAt
}

func (s atReader) Read(p []byte) (int, error)              { return s.s.Read(p) }
func (s atReader) ReadAt(p []byte, off int64) (int, error) { return s.ra.ReadAt(p, off) }

// peekers need no wrapping by the standard library.
type peekSeeker struct{ seeker }

func (p peekSeeker) Peek(n int) ([]byte, error) { return peek(p.s, n) }

type peekAt struct{ atReader }

func (p peekAt) Peek(n int) ([]byte, error) { return peek(p.s, n) }

type peekOnly struct{ plainReader }

func (p peekOnly) Peek(n int) ([]byte, error) { return peek(p.s, n) }

func peek(s *stream, n int) ([]byte, error) {
	if int64(n) > int64(len(s.b))-s.pos {
		return s.b[s.pos:], io.EOF
	}

	return s.b[s.pos : s.pos+int64(n)], nil
}

// yielding gives way within reads at random. It shares nothing that is written,
// and takes no lock, as that would order the goroutines that read, and hide
// their races from the detector.
type yielding struct {
	io.ReaderAt
	seed uint64
}

func (y *yielding) ReadAt(p []byte, off int64) (int, error) {
	switch k := rt.Hash(y.seed, uint64(off), uint64(time.Now().UnixNano())) % 12; {
	case k < 3:
		runtime.Gosched()
	case k == 3:
		time.Sleep(time.Microsecond)
	}

	return y.ReaderAt.ReadAt(p, off)
}

// recording keeps the order in which the reads arrive.
type recording struct {
	io.ReaderAt
	sync.Mutex
	offs []uint64
}

func (r *recording) ReadAt(p []byte, off int64) (int, error) {
	r.Lock()
	r.offs = append(r.offs, uint64(off))
	r.Unlock()

	return r.ReaderAt.ReadAt(p, off)
}

const nSources = 9

// makeSource makes a source of a file; it may be seekable, or random, or not.
func makeSource(t *rt.T, b []byte, d delivery, kind int) (r io.Reader, what string, s *stream, done func()) {
	done = func() {}
	s = &stream{delivery: d, b: b, rng: rt.NewRng(t.U64())}

	switch kind {
	case 0:
		return bytes.NewReader(b), "a bytes.Reader", nil, done
	case 1:
		return strings.NewReader(string(b)), "a strings.Reader", nil, done
	case 2:
		f, err := os.CreateTemp("", "verif-c26-")
		if err != nil {
			t.Fail("cannot create a file: %v", err)
		}

		name := f.Name()

		f.Write(b)
		f.Seek(0, io.SeekStart)

		return f, "an os.File", nil, func() { f.Close(); os.Remove(name) }
	case 3:
		pad := make([]byte, t.N(30))
		all := append(append(pad, b...), make([]byte, t.N(30))...)

		return io.NewSectionReader(bytes.NewReader(all), int64(len(pad)), int64(len(b))), "an io.SectionReader", nil, done
	case 4:
		return seeker{s}, fmt.Sprintf("a seeker %+v", d), s, done
	case 5:
		return atReader{s, eager(b)}, fmt.Sprintf("a reader at random %+v", d), s, done
	case 6:
		return peekSeeker{seeker{s}}, fmt.Sprintf("a peeking seeker %+v", d), s, done
	case 7:
		return peekAt{atReader{s, bytes.NewReader(b)}}, fmt.Sprintf("a peeking reader at random %+v", d), s, done
	default:
		return s, fmt.Sprintf("a reader and seeker %+v", d), s, done
	}
}

func randDelivery(t *rt.T) delivery {
	return delivery{chunk: t.Pick(0, 1, 2, 3, 7, 16, 64, 1000), random: t.B(), none: t.P(3), eager: t.B(), yield: t.P(3)}
}

var c26 = &rt.Check{
	ID: "C26", Level: "exploration", Race: true,
	Rule: "generated and encoded files handed to image.Decode and image.DecodeConfig as bytes.Reader, strings.Reader, os.File, SectionReader, and as sources of the harness's own that seek or read at random or have a Peek of their own, delivering chunks of 1 byte up to all, sometimes nothing, the end of the file with or after the last bytes, directly or within a bufio.Reader of some size that may have been read from; image and configuration compared with those of the bytes; sources that can only be read; seekers whose reads or seeks fail in turn, once or for good; all with the race detector watching the position of the shared source, goroutines counted afterwards, and a watchdog for hangs. Non-trivial: every decoding; counted by hash of file, source and fault.",
	N:    rt.Cases(900, 15000), MinKeys: 4000,
	Run: func(t *rt.T) {
		var b []byte

		if t.P(3) {
			o := encodable(t)
			m := subject(t, o)
			t.Describe("%s", gen.DescribeImage(m))
			b = encode(t, m).b
		} else {
			o := &gen.XForeign{R: t.Rng, Version: -1, Base: -1, Depth: t.N(2), Texts: t.P(3), Small: !t.P(4), MaxLayers: 6, Dissolve: true}

			if !o.Small && t.B() {
				o.Repeat = true
				o.MaxLayers = 2
			}

			f := o.Make()
			t.Describe("%s", f.Describe())
			b = f.Write(t.Rng, t.P(3))
		}

		h := rt.HashB(b)
		desc := t.Desc()
		ref := decode(t, b, false)
		cfg, err := xcf.DecodeConfig(bytes.NewReader(b))

		if err != nil {
			t.Fail("DecodeConfig: %v", err)
		}

		base := runtime.NumGoroutine()

		wrap := func(r io.Reader, what string) (io.Reader, string) {
			if t.P(3) {
				n := t.Pick(1, 16, 17, 64, 4096, 100000)

				return bufio.NewReaderSize(r, n), fmt.Sprintf("a bufio.Reader of %d on %s", n, what)
			}

			return r, what
		}

		for k := 0; k < 12; k++ {
			d := randDelivery(t)
			kind := k % nSources

			r, what, _, done := makeSource(t, b, d, kind)
			r, what = wrap(r, what)
			t.Describe("%s: %s", what, desc)

			var (
				got  image.Image
				name string
				err  error
			)

			t.Guard("image.Decode", func() { got, name, err = image.Decode(r) })
			done()
			t.Eval(1)
			t.Count(fmt.Sprintf("decoded_from_source_kind_%d", kind), 1)

			if err != nil {
				t.Fail("image.Decode fails: %v", err)
			}

			i, ok := got.(limage.Image)
			if !ok || name != "xcf" {
				t.Fail("image.Decode gives a %T in the format %q", got, name)
			}

			if s := sameTree(ref, i); s != "" {
				t.Fail("image.Decode gives a different image: %s", s)
			}

			t.Key(rt.Hash(h, rt.HashS(what)))

			var gcfg image.Config

			r, what, _, done = makeSource(t, b, d, kind)
			r, what = wrap(r, what)
			t.Describe("%s: %s", what, desc)
			t.Guard("image.DecodeConfig", func() { gcfg, name, err = image.DecodeConfig(r) })
			done()
			t.Eval(1)

			if err != nil || name != "xcf" || !reflect.DeepEqual(gcfg, cfg) {
				t.Fail("image.DecodeConfig gives %v, %q, %v, want %v", gcfg, name, err, cfg)
			}
		}

		// without a place to read at
		for k := 0; k < 3; k++ {
			var r io.Reader

			s := &stream{delivery: randDelivery(t), b: b, rng: rt.NewRng(t.U64())}

			switch k {
			case 0:
				r = plainReader{s}
			case 1:
				r = peekOnly{plainReader{s}}
			case 2:
				r = bufio.NewReaderSize(plainReader{s}, t.Pick(16, 100, 4096))
			}

			t.Describe("only a reader (%d): %s", k, desc)

			var (
				err error
				got image.Image
			)

			if t.B() {
				t.Guard("image.Decode", func() { got, _, err = image.Decode(r) })

				if i, ok := got.(limage.Image); ok && i != nil {
					t.Fail("image.Decode gives an image")
				}
			} else {
				t.Guard("image.DecodeConfig", func() { _, _, err = image.DecodeConfig(r) })
			}

			t.Eval(1)
			t.Count("refused_for_want_of_a_place", 1)

			if !errors.Is(err, xcf.ErrNeedReaderAt) {
				t.Fail("the error is %v, want %v", err, xcf.ErrNeedReaderAt)
			}
		}

		// at random and directly
		for k := 0; k < 2; k++ {
			y := &yielding{ReaderAt: bytes.NewReader(b), seed: t.U64()}
			if k == 1 {
				y.ReaderAt = eager(b)
			}

			var (
				got limage.Image
				err error
			)

			t.Describe("read at random: %s", desc)
			t.Guard("Decode", func() { got, err = decoders[t.N(2)].f(y) })
			t.Eval(1)

			if err != nil {
				t.Fail("decoding fails: %v", err)
			}

			if s := sameTree(ref, got); s != "" {
				t.Fail("decoding gives a different image: %s", s)
			}
		}

		// faults
		for k := 0; k < 30; k++ {
			d := randDelivery(t)
			d.err = faultErrs[t.N(4)]
			d.once, d.part = t.B(), t.P(3)
			probe := &stream{delivery: d, b: b, rng: rt.NewRng(t.U64())}

			if _, _, err := image.Decode(seeker{probe}); err != nil {
				t.Fail("without a fault: %v", err)
			}

			if t.B() {
				d.failSeek = t.R(1, probe.seeks)
			} else {
				d.failRead = t.R(1, probe.reads)
			}

			r, what, s, done := makeSource(t, b, d, t.Pick(4, 6, 8))
			r, what = wrap(r, what)
			t.Describe("%s: %s", what, desc)

			var (
				got image.Image
				err error
			)

			config := t.P(4)

			if config {
				t.Guard("image.DecodeConfig", func() { _, _, err = image.DecodeConfig(r) })
			} else {
				t.Guard("image.Decode", func() { got, _, err = image.Decode(r) })
			}

			done()
			t.Eval(1)

			if s.hit == 0 {
				continue
			}

			t.Count("faults", 1)
			t.Key(rt.Hash(h, rt.HashS(what), 7))

			if err == nil && s.early == s.hit && d.once {
				// the standard library looked for the format, and went on
				// without the rest; what was decoded must be right
				if i, ok := got.(limage.Image); ok && !config {
					if x := sameTree(ref, i); x != "" {
						t.Fail("a fault while the format was found, and the image is a different one: %s", x)
					}
				}

				t.Count("faults_before_decoding", 1)

				continue
			}

			if err == nil {
				t.Fail("a read or seek failed (%d times), and there was no error", s.hit)
			}
		}

		// whatever was started has ended
		for k := 0; runtime.NumGoroutine() > base; k++ {
			if k > 2000 {
				t.Fail("%d goroutines, %d before", runtime.NumGoroutine(), base)
			}

			time.Sleep(time.Millisecond)
		}

		t.Sample("%s", desc)
	},
}
