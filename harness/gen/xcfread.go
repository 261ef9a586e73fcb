package gen

import (
	"bytes"
	"encoding/binary"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"vimagination.zapto.org/limage/lcolor"
)

// XRead is a layer as ReadXCF finds it.
type XRead struct {
	XLayer
	Path      []uint32
	Parasites map[string][]byte
}

// XDoc is an XCF file as ReadXCF finds it.
type XDoc struct {
	File   XFile
	Layers []*XRead // in the order of the file
}

type xreader struct {
	b     []byte
	pw    int // pointer width
	owner []string
	tiles map[int]int
	doc   *XDoc
	base  int
	bpp   int
}

type xerr struct{ error }

func (r *xreader) fail(f string, a ...interface{}) { panic(xerr{fmt.Errorf(f, a...)}) }

type cursor struct {
	r   *xreader
	at  int
	who string
}

func (c *cursor) take(n int) []byte {
	if n < 0 || c.at < 0 || c.at+n > len(c.r.b) {
		c.r.fail("%s: reading %d bytes at %d of a file of %d", c.who, n, c.at, len(c.r.b))
	}

	for i := c.at; i < c.at+n; i++ {
		if c.r.owner[i] != "" {
			c.r.fail("%s overlaps %s at byte %d", c.who, c.r.owner[i], i)
		}

		c.r.owner[i] = c.who
	}

	b := c.r.b[c.at : c.at+n]
	c.at += n

	return b
}

func (c *cursor) u8() int     { return int(c.take(1)[0]) }
func (c *cursor) u32() uint32 { return binary.BigEndian.Uint32(c.take(4)) }
func (c *cursor) ptr() int {
	if c.r.pw == 4 {
		return int(c.u32())
	}

	p := binary.BigEndian.Uint64(c.take(8))
	if p > math.MaxInt32 {
		c.r.fail("%s: a pointer to %d", c.who, p)
	}

	return int(p)
}

func (c *cursor) str() string {
	n := int(c.u32())
	if n == 0 {
		return ""
	}

	b := c.take(n)
	if b[n-1] != 0 || bytes.IndexByte(b, 0) != n-1 {
		c.r.fail("%s: string %q is not terminated once", c.who, b)
	}

	if !utf8.Valid(b) {
		c.r.fail("%s: string %q is not UTF-8", c.who, b)
	}

	return string(b[:n-1])
}

func (r *xreader) goTo(at int, who string) *cursor {
	if at <= 0 || at >= len(r.b) {
		r.fail("%s: a pointer to %d in a file of %d", who, at, len(r.b))
	}

	return &cursor{r, at, who}
}

var xpropLen = map[uint32]int{2: 0, 3: 0, 5: -2, 6: 4, 7: 4, 8: 4, 9: 4, 10: 4, 11: 4, 12: 4, 13: 4, 14: 4, 15: 8, 16: 3, 17: 1, 18: -1, 19: 8, 20: 4, 22: 4, 26: 4, 28: 4, 29: 0, 30: -1, 31: 4, 32: 4, 33: 4, 34: 4, 35: 4, 36: 4, 37: 4, 38: 12}

func (c *cursor) props(f func(id uint32, p []byte)) {
	seen := map[uint32]bool{}

	for {
		id := c.u32()
		n := int(c.u32())

		if id == 0 {
			if n != 0 {
				c.r.fail("%s: end of properties of length %d", c.who, n)
			}

			return
		}

		if seen[id] {
			c.r.fail("%s: property %d twice", c.who, id)
		}

		seen[id] = true
		p := c.take(n)

		if want, ok := xpropLen[id]; ok {
			if want >= 0 && n != want {
				c.r.fail("%s: property %d of %d bytes, want %d", c.who, id, n, want)
			}
		} else if id > 39 {
			c.r.fail("%s: unknown property %d", c.who, id)
		}

		f(id, p)
	}
}

func (c *cursor) bool(id uint32, p []byte) bool {
	v := binary.BigEndian.Uint32(p)
	if v > 1 {
		c.r.fail("%s: property %d is %d, not a boolean", c.who, id, v)
	}

	return v == 1
}

// ReadXCF reads an XCF file strictly: everything has to be where the format
// says, nothing may overlap, and all bytes have to belong to something.
func ReadXCF(b []byte) (d *XDoc, err error) {
	r := &xreader{b: b, owner: make([]string, len(b)), tiles: map[int]int{}, doc: new(XDoc), pw: 4}

	defer func() {
		if e := recover(); e != nil {
			x, ok := e.(xerr)
			if !ok {
				panic(e)
			}

			err = x.error
		}
	}()

	r.read()

	for n, o := range r.owner {
		if o == "" {
			return nil, fmt.Errorf("byte %d of %d belongs to nothing (after %s)", n, len(b), r.owner[n-1])
		}
	}

	return r.doc, nil
}

func (r *xreader) read() {
	c := &cursor{r, 0, "the header"}
	f := &r.doc.File
	h := string(c.take(14))

	if h[:9] != "gimp xcf " || h[13] != 0 {
		r.fail("the header is %q", h)
	}

	switch v := h[9:13]; {
	case v == "file":
	case v[0] == 'v':
		n, err := strconv.Atoi(v[1:])
		if err != nil || n < 1 || n > 13 {
			r.fail("the version is %q", v)
		}

		f.Version = n
	default:
		r.fail("the version is %q", v)
	}

	if f.Version >= 11 {
		r.pw = 8
	}

	f.W, f.H, f.Base = int(c.u32()), int(c.u32()), int(c.u32())
	if f.W < 1 || f.H < 1 || f.Base > 2 {
		r.fail("a canvas of %dx%d, base type %d", f.W, f.H, f.Base)
	}

	if f.Version >= 4 {
		if p := c.u32(); p != 0 && p != 100 && p != 150 {
			r.fail("precision %d", p)
		}
	}

	c.props(func(id uint32, p []byte) {
		switch id {
		case 1:
			if len(p) < 4 {
				r.fail("a colour map of %d bytes", len(p))
			}

			n := int(binary.BigEndian.Uint32(p))
			if n > 256 || len(p) != 4+3*n {
				r.fail("a colour map of %d entries in %d bytes", n, len(p))
			}

			if f.Base == 2 {
				for p = p[4:]; len(p) > 0; p = p[3:] {
					f.Palette = append(f.Palette, lcolor.RGB{R: p[0], G: p[1], B: p[2]})
				}
			}
		case 17:
			if p[0] > 1 {
				r.fail("compression %d", p[0])
			}

			f.RLE = p[0] == 1
		case 21:
			r.parasites(p)
		}
	})

	if f.Base == 2 && len(f.Palette) == 0 {
		r.fail("an indexed image without a palette")
	}

	var ptrs []int

	for {
		p := c.ptr()
		if p == 0 {
			break
		}

		ptrs = append(ptrs, p)
	}

	for {
		p := c.ptr()
		if p == 0 {
			break
		}

		r.channel(p, "a channel")
	}

	for n, p := range ptrs {
		r.doc.Layers = append(r.doc.Layers, r.layer(p, n))
	}

	// build the tree
	var stack []*XLayer

	next := func(path []uint32) int {
		if len(path) == 1 {
			return len(f.Layers)
		}

		return len(stack[len(path)-2].Kids)
	}

	for n, l := range r.doc.Layers {
		path := l.Path
		if path == nil {
			path = []uint32{uint32(len(f.Layers))}
		}

		if len(path) == 0 || len(path) > len(stack)+1 {
			r.fail("layer %d has item path %v at depth %d", n, path, len(stack))
		}

		for i := 0; i < len(path)-1; i++ {
			if !stack[i].Group {
				r.fail("layer %d is in layer %q, which is no group", n, stack[i].Name)
			}
		}

		if want := next(path); int(path[len(path)-1]) != want {
			r.fail("layer %d has item path %v, want it to end in %d", n, path, want)
		}

		for i := 0; i < len(path)-1; i++ {
			idx := len(f.Layers) - 1
			if i > 0 {
				idx = len(stack[i-1].Kids) - 1
			}

			if int(path[i]) != idx {
				r.fail("layer %d has item path %v, want %d at %d", n, path, idx, i)
			}
		}

		x := &l.XLayer
		if len(path) == 1 {
			f.Layers = append(f.Layers, x)
		} else {
			p := stack[len(path)-2]
			p.Kids = append(p.Kids, x)
		}

		stack = append(stack[:len(path)-1], x)
	}
}

func (r *xreader) parasites(p []byte) map[string][]byte {
	m := map[string][]byte{}

	for len(p) > 0 {
		if len(p) < 4 {
			r.fail("a parasite is cut")
		}

		n := int(binary.BigEndian.Uint32(p))
		if n < 1 || 4+n+8 > len(p) {
			r.fail("a parasite's name has %d bytes of %d", n, len(p))
		}

		name := p[4 : 4+n]
		if name[n-1] != 0 {
			r.fail("a parasite's name, %q, is not terminated", name)
		}

		p = p[4+n+4:]
		k := int(binary.BigEndian.Uint32(p))

		if 4+k > len(p) {
			r.fail("a parasite has %d bytes of %d", k, len(p)-4)
		}

		if _, ok := m[string(name[:n-1])]; ok {
			r.fail("parasite %q twice", name)
		}

		m[string(name[:n-1])] = p[4 : 4+k]
		p = p[4+k:]
	}

	return m
}

func (r *xreader) layer(at, n int) *XRead {
	f := &r.doc.File
	who := fmt.Sprintf("layer %d", n)
	c := r.goTo(at, who)
	l := &XRead{}
	l.Opacity = 255
	l.W, l.H = int(c.u32()), int(c.u32())
	typ := int(c.u32())

	if l.W < 1 || l.H < 1 || l.W > 1<<18 || l.H > 1<<18 {
		r.fail("%s is %dx%d", who, l.W, l.H)
	}

	if typ>>1 != f.Base {
		r.fail("%s has type %d in an image of base type %d", who, typ, f.Base)
	}

	l.Alpha = typ&1 == 1
	l.Name = c.str()

	c.props(func(id uint32, p []byte) {
		switch id {
		case 6:
			o := binary.BigEndian.Uint32(p)
			if o > 255 {
				r.fail("%s has opacity %d", who, o)
			}

			l.Opacity = uint8(o)
		case 7:
			l.Mode = binary.BigEndian.Uint32(p)
			if l.Mode >= uint32(len(XCFModes)) {
				r.fail("%s has mode %d", who, l.Mode)
			}
		case 8:
			l.Hidden = !c.bool(id, p)
		case 9, 10, 11, 12, 13, 28, 32:
			c.bool(id, p)
		case 15:
			l.X, l.Y = int(int32(binary.BigEndian.Uint32(p))), int(int32(binary.BigEndian.Uint32(p[4:])))
		case 21:
			l.Parasites = r.parasites(p)
		case 26:
		case 29:
			l.Group = true
		case 30:
			if len(p)%4 != 0 || len(p) == 0 {
				r.fail("%s has an item path of %d bytes", who, len(p))
			}

			for ; len(p) > 0; p = p[4:] {
				l.Path = append(l.Path, binary.BigEndian.Uint32(p))
			}
		case 33:
			v := math.Float32frombits(binary.BigEndian.Uint32(p))
			if !(v >= 0 && v <= 1) {
				r.fail("%s has opacity %v", who, v)
			}

			if f.Version < 10 {
				r.fail("%s has a float opacity in a file of version %d", who, f.Version)
			}

			l.Opacity = uint8(math.Round(float64(v) * 255))
		}
	})

	h, m := c.ptr(), c.ptr()

	l.Chan = r.hierarchy(h, l.W, l.H, f.Channels(l.Alpha), who)

	if m != 0 {
		w, hh, pix := r.channel(m, who+"'s mask")
		if w != l.W || hh != l.H {
			r.fail("%s of %dx%d has a mask of %dx%d", who, l.W, l.H, w, hh)
		}

		l.Mask = pix
	}

	if f.Base == 2 {
		for n, i := range l.Chan[0] {
			if int(i) >= len(f.Palette) {
				r.fail("%s: pixel %d has index %d in a palette of %d", who, n, i, len(f.Palette))
			}
		}
	}

	if p, ok := l.Parasites["gimp-text-layer"]; ok {
		t, err := ReadXText(p)
		if err != nil {
			r.fail("%s: %w in %q", who, err, p)
		}

		l.Text = t
	}

	return l
}

func (r *xreader) channel(at int, who string) (int, int, []byte) {
	c := r.goTo(at, who)
	w, h := int(c.u32()), int(c.u32())

	if w < 1 || h < 1 || w > 1<<18 || h > 1<<18 {
		r.fail("%s is %dx%d", who, w, h)
	}

	c.str()
	c.props(func(uint32, []byte) {})

	return w, h, r.hierarchy(c.ptr(), w, h, 1, who)[0]
}

func (r *xreader) hierarchy(at, w, h, bpp int, who string) [][]byte {
	who += "'s hierarchy"
	c := r.goTo(at, who)

	if a, b, d := int(c.u32()), int(c.u32()), int(c.u32()); a != w || b != h || d != bpp {
		r.fail("%s is %dx%d of %d bytes, want %dx%d of %d", who, a, b, d, w, h, bpp)
	}

	var (
		pix [][]byte
		lw  = w
		lh  = h
	)

	for n := 0; ; n++ {
		p := c.ptr()
		if p == 0 {
			break
		}

		x := r.level(p, lw, lh, bpp, n == 0, fmt.Sprintf("%s, level %d", who, n))
		if n == 0 {
			pix = x
		}

		lw, lh = lw/2, lh/2
	}

	if pix == nil {
		r.fail("%s has no level", who)
	}

	return pix
}

func (r *xreader) level(at, w, h, bpp int, full bool, who string) [][]byte {
	c := r.goTo(at, who)

	if a, b := int(c.u32()), int(c.u32()); full && (a != w || b != h) {
		r.fail("%s is %dx%d, want %dx%d", who, a, b, w, h)
	}

	pix := make([][]byte, bpp)
	for k := range pix {
		pix[k] = make([]byte, w*h)
	}

	if full {
		for y := 0; y < h; y += 64 {
			for x := 0; x < w; x += 64 {
				tw, th := w-x, h-y
				if tw > 64 {
					tw = 64
				}

				if th > 64 {
					th = 64
				}

				p := c.ptr()
				if p == 0 {
					r.fail("%s has too few tiles", who)
				}

				t := r.tile(p, tw*th, bpp, fmt.Sprintf("%s, tile at (%d,%d)", who, x, y))

				for k := range pix {
					for j := 0; j < th; j++ {
						copy(pix[k][(y+j)*w+x:], t[k][j*tw:(j+1)*tw])
					}
				}
			}
		}
	}

	if p := c.ptr(); p != 0 {
		r.fail("%s is not terminated after its tiles", who)
	}

	return pix
}

func (r *xreader) tile(at, n, bpp int, who string) [][]byte {
	if at <= 0 || at >= len(r.b) {
		r.fail("%s: a pointer to %d in a file of %d", who, at, len(r.b))
	}

	var (
		out [][]byte
		p   = at
	)

	need := func(k int) {
		if p+k > len(r.b) {
			r.fail("%s runs over the end of the file", who)
		}
	}

	if !r.doc.File.RLE {
		need(n * bpp)

		for k := 0; k < bpp; k++ {
			ch := make([]byte, n)
			for i := range ch {
				ch[i] = r.b[p+i*bpp+k]
			}

			out = append(out, ch)
		}

		p += n * bpp
	} else {
		for k := 0; k < bpp; k++ {
			ch := make([]byte, 0, n)

			for len(ch) < n {
				need(1)

				m := int(r.b[p])
				p++

				count, run := 0, m < 128

				switch m {
				case 127, 128:
					need(2)
					count = int(binary.BigEndian.Uint16(r.b[p:]))
					p += 2
				default:
					if run {
						count = m + 1
					} else {
						count = 256 - m
					}
				}

				if count == 0 || len(ch)+count > n {
					r.fail("%s, channel %d: a run of %d bytes after %d of %d", who, k, count, len(ch), n)
				}

				if run {
					need(1)
					ch = append(ch, bytes.Repeat(r.b[p:p+1], count)...)
					p++
				} else {
					need(count)
					ch = append(ch, r.b[p:p+count]...)
					p += count
				}
			}

			out = append(out, ch)
		}
	}

	if end, ok := r.tiles[at]; ok { // shared by two pointers
		if end != p {
			r.fail("%s shares a tile of another size", who)
		}

		return out
	}

	r.tiles[at] = p
	(&cursor{r, at, who}).take(p - at)

	return out
}

// --- text ------------------------------------------------------------------------

// sexp is a symbol or number (Text), a string (Quoted), or a list.
type sexp struct {
	Text   string
	Quoted bool
	List   []sexp
}

type sexpReader struct {
	s string
	i int
}

func (r *sexpReader) skip() {
	for r.i < len(r.s) && strings.IndexByte(" \t\r\n", r.s[r.i]) >= 0 {
		r.i++
	}
}

func (r *sexpReader) read(depth int) (sexp, error) {
	r.skip()

	if r.i >= len(r.s) {
		return sexp{}, io.ErrUnexpectedEOF
	}

	switch c := r.s[r.i]; {
	case c == '(':
		r.i++

		s := sexp{List: []sexp{}}

		for {
			r.skip()

			if r.i < len(r.s) && r.s[r.i] == ')' {
				r.i++

				return s, nil
			}

			if depth > 10 {
				return s, errors.New("nested deeply")
			}

			e, err := r.read(depth + 1)
			if err != nil {
				return s, err
			}

			s.List = append(s.List, e)
		}
	case c == '"':
		var b []byte

		for r.i++; ; r.i++ {
			if r.i >= len(r.s) {
				return sexp{}, errors.New("unterminated string")
			}

			switch c := r.s[r.i]; c {
			case '"':
				r.i++

				return sexp{Text: string(b), Quoted: true}, nil
			case '\\': // as GScanner has it
				r.i++
				if r.i >= len(r.s) {
					return sexp{}, errors.New("unterminated escape")
				}

				switch c := r.s[r.i]; {
				case c == 'n':
					b = append(b, '\n')
				case c == 't':
					b = append(b, '\t')
				case c == 'r':
					b = append(b, '\r')
				case c == 'b':
					b = append(b, '\b')
				case c == 'f':
					b = append(b, '\f')
				case c >= '0' && c <= '7':
					v := 0

					for k := 0; k < 3 && r.i < len(r.s) && r.s[r.i] >= '0' && r.s[r.i] <= '7'; k++ {
						v = v*8 + int(r.s[r.i]-'0')
						r.i++
					}

					r.i--
					b = append(b, byte(v))
				default:
					b = append(b, c)
				}
			case 0:
				return sexp{}, errors.New("NUL in a string")
			default:
				b = append(b, c)
			}
		}
	case c == ')':
		return sexp{}, errors.New("unexpected )")
	}

	a := r.i
	for r.i < len(r.s) && strings.IndexByte(" \t\r\n()\"", r.s[r.i]) < 0 {
		r.i++
	}

	return sexp{Text: r.s[a:r.i]}, nil
}

// ReadXText reads a text parasite as GIMP does, without regard for its styles.
func ReadXText(p []byte) (*XText, error) {
	if len(p) == 0 || p[len(p)-1] != 0 || bytes.IndexByte(p, 0) != len(p)-1 {
		return nil, errors.New("the text parasite is not terminated by its only NUL")
	}

	if !utf8.Valid(p) {
		return nil, errors.New("the text parasite is not UTF-8")
	}

	r := sexpReader{s: string(p[:len(p)-1])}
	t := &XText{Raw: r.s}
	seen := map[string]bool{}
	str := func(s sexp) (string, error) {
		if len(s.List) != 2 || !s.List[1].Quoted {
			return "", fmt.Errorf("%s has no string", s.List[0].Text)
		}

		return s.List[1].Text, nil
	}
	num := func(s sexp) error {
		if s.List != nil || s.Quoted {
			return fmt.Errorf("%q is no number", s.Text)
		}

		_, err := strconv.ParseFloat(s.Text, 64)

		return err
	}

	for {
		r.skip()

		if r.i >= len(r.s) {
			break
		}

		s, err := r.read(0)
		if err != nil {
			return nil, err
		}

		if len(s.List) == 0 || s.List[0].List != nil || s.List[0].Quoted || s.List[0].Text == "" {
			return nil, errors.New("a list without a name")
		}

		n := s.List[0].Text
		if seen[n] {
			return nil, fmt.Errorf("%s twice", n)
		}

		seen[n] = true

		switch n {
		case "text":
			x, err := str(s)
			if err != nil {
				return nil, err
			}

			t.Plain = true
			t.Markup = x
			t.String = x
		case "markup":
			x, err := str(s)
			if err != nil {
				return nil, err
			}

			t.Markup = x

			if t.String, err = markupText(x); err != nil {
				return nil, fmt.Errorf("%w in markup %q", err, x)
			}
		case "font":
			if _, err := str(s); err != nil {
				return nil, err
			}
		case "font-size", "box-width", "box-height":
			if len(s.List) != 2 {
				return nil, fmt.Errorf("%s has %d values", n, len(s.List)-1)
			}

			if err := num(s.List[1]); err != nil {
				return nil, err
			}
		case "color":
			if len(s.List) != 2 || len(s.List[1].List) != 4 || s.List[1].List[0].Text != "color-rgb" {
				return nil, errors.New("color is no color-rgb of three")
			}

			for _, v := range s.List[1].List[1:] {
				if err := num(v); err != nil {
					return nil, err
				}

				if f, _ := strconv.ParseFloat(v.Text, 64); f < 0 || f > 1 {
					return nil, fmt.Errorf("color component %s is not in 0 to 1", v.Text)
				}
			}
		}
	}

	if seen["text"] == seen["markup"] {
		return nil, errors.New("not one of text and markup")
	}

	return t, nil
}

// markupText is the text of Pango markup.
func markupText(s string) (string, error) {
	x := xml.NewDecoder(strings.NewReader(s))
	depth := 0

	var b strings.Builder

	for {
		t, err := x.Token()
		if errors.Is(err, io.EOF) {
			break
		} else if err != nil {
			return "", err
		}

		switch t := t.(type) {
		case xml.StartElement:
			switch n := t.Name.Local; {
			case n == "markup" && depth == 0:
			case depth == 0:
				return "", fmt.Errorf("the root is %q", n)
			case n == "b" || n == "i" || n == "u" || n == "s" || n == "span" || n == "tt" || n == "big" || n == "small" || n == "sub" || n == "sup":
			default:
				return "", fmt.Errorf("element %q", n)
			}

			seen := map[string]bool{}

			for _, a := range t.Attr {
				if seen[a.Name.Local] {
					return "", fmt.Errorf("attribute %q twice", a.Name.Local)
				}

				seen[a.Name.Local] = true

				switch n := a.Name.Local; n {
				case "foreground", "background", "fgcolor", "bgcolor":
					if len(a.Value) != 7 || a.Value[0] != '#' {
						return "", fmt.Errorf("colour %q", a.Value)
					}

					if _, err := strconv.ParseUint(a.Value[1:], 16, 32); err != nil {
						return "", err
					}
				case "size", "rise", "letter_spacing":
					if _, err := strconv.ParseUint(a.Value, 10, 31); err != nil {
						return "", err
					}
				case "font", "font_desc", "face":
				default:
					return "", fmt.Errorf("attribute %q", n)
				}
			}

			depth++
		case xml.EndElement:
			depth--
		case xml.CharData:
			if depth == 0 && strings.TrimSpace(string(t)) != "" {
				return "", fmt.Errorf("text %q outside of the markup", string(t))
			}

			b.Write(t)
		default:
			return "", fmt.Errorf("a %T", t)
		}
	}

	return b.String(), nil
}

// TileBytes lists the offsets of the bytes in the tiles of a valid file, as far
// as ReadXCF understands it.
func TileBytes(b []byte) (at []int) {
	r := &xreader{b: b, owner: make([]string, len(b)), tiles: map[int]int{}, doc: new(XDoc), pw: 4}

	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(xerr); !ok {
				panic(e)
			}
		}

		for s, e := range r.tiles {
			for i := s; i < e; i++ {
				at = append(at, i)
			}
		}

		sort.Ints(at)
	}()

	r.read()

	return nil
}
