package gen

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"io"
	"sort"
	"strconv"
	"strings"

	"verif/rt"

	"vimagination.zapto.org/limage"
)

// PNGTrip is an image as PNG stores it.
func PNGTrip(i image.Image) (image.Image, error) {
	var b bytes.Buffer

	if err := png.Encode(&b, i); err != nil {
		return nil, err
	}

	return png.Decode(&b)
}

// Flat is an image with given pixels, model and bounds.
type Flat struct {
	Model color.Model
	Rect  image.Rectangle
	Pix   []color.Color
}

func (f *Flat) ColorModel() color.Model { return f.Model }
func (f *Flat) Bounds() image.Rectangle { return f.Rect }
func (f *Flat) At(x, y int) color.Color {
	if !(image.Pt(x, y)).In(f.Rect) {
		return color.Alpha{}
	}

	return f.Pix[(y-f.Rect.Min.Y)*f.Rect.Dx()+x-f.Rect.Min.X]
}

// Flatten reads every pixel of an image.
func Flatten(i image.Image) *Flat {
	b := i.Bounds()
	f := &Flat{i.ColorModel(), b, make([]color.Color, 0, b.Dx()*b.Dy())}

	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			f.Pix = append(f.Pix, i.At(x, y))
		}
	}

	return f
}

// SamePicture compares the pixels of two images placed at their origins.
func SamePicture(a, b image.Image) string {
	p, q := a.Bounds(), b.Bounds()
	if p.Dx() != q.Dx() || p.Dy() != q.Dy() {
		return fmt.Sprintf("size is %v, want %v", q.Size(), p.Size())
	}

	for y := 0; y < p.Dy(); y++ {
		for x := 0; x < p.Dx(); x++ {
			c, d := a.At(p.Min.X+x, p.Min.Y+y), b.At(q.Min.X+x, q.Min.Y+y)
			if !SameColour(c, d) {
				return fmt.Sprintf("pixel (%d,%d) is %v %v, want %v %v", x, y, d, Pre16(d), c, Pre16(c))
			}
		}
	}

	return ""
}

// Canon is the layered image that an encoder is asked to store.
func Canon(m image.Image) limage.Image {
	var l limage.Image

	switch m := m.(type) {
	case limage.Image:
		l = append(l, m...)
	case *limage.Image:
		l = append(l, *m...)
	case limage.Layer:
		l = limage.Image{m}
	case *limage.Layer:
		l = limage.Image{*m}
	default:
		l = limage.Image{{LayerBounds: m.Bounds(), Image: m}}
	}

	Move(l, image.Point{}.Sub(l.Bounds().Min))

	return l
}

// Whole is a plain image, which is shown from its own corner on, whereas the
// picture of a layer is shown from the point (0,0) on.
type Whole struct{ image.Image }

// CanonOra is Canon, in which a plain image is marked.
func CanonOra(m image.Image) limage.Image {
	l := Canon(m)

	switch m.(type) {
	case limage.Image, *limage.Image, limage.Layer, *limage.Layer:
	default:
		l[0].Image = Whole{m}
	}

	return l
}

// GroupOf tells whether an image is a group.
func GroupOf(i image.Image) (limage.Image, bool) {
	switch i := i.(type) {
	case limage.Image:
		return i, true
	case *limage.Image:
		return *i, true
	}

	return nil, false
}

// OraOps are the composite operations of OpenRaster that the library has.
var OraOps = map[string]limage.Composite{
	"svg:src-over":    limage.CompositeNormal,
	"svg:multiply":    limage.CompositeMultiply,
	"svg:screen":      limage.CompositeScreen,
	"svg:overlay":     limage.CompositeOverlay,
	"svg:darken":      limage.CompositeDarkenOnly,
	"svg:lighten":     limage.CompositeLightenOnly,
	"svg:color-dodge": limage.CompositeDodge,
	"svg:color-burn":  limage.CompositeBurn,
	"svg:hard-light":  limage.CompositeHardLight,
	"svg:soft-light":  limage.CompositeSoftLight,
	"svg:difference":  limage.CompositeDifference,
	"svg:color":       limage.CompositeColor,
	"svg:luminosity":  limage.CompositeLuminosity,
	"svg:hue":         limage.CompositeHue,
	"svg:saturation":  limage.CompositeSaturation,
	"svg:plus":        limage.CompositePlus,
	"svg:dst-in":      limage.CompositeDestinationIn,
	"svg:dst-out":     limage.CompositeDestinationOut,
	"svg:src-atop":    limage.CompositeSourceAtop,
	"svg:dst-atop":    limage.CompositeDestinationAtop,
}

var opOf = map[limage.Composite]string{}

func init() {
	for k, v := range OraOps {
		opOf[v] = k
	}
}

// OraMode is a mode as OpenRaster can store it.
func OraMode(m limage.Composite) limage.Composite {
	if _, ok := opOf[m]; ok {
		return m
	}

	return limage.CompositeNormal
}

// OraNode is an element of stack.xml.
type OraNode struct {
	Stack   bool
	Name    string
	X, Y    int
	Opacity float64
	Hidden  bool
	Op      string
	Src     string
	Kids    []*OraNode
	Pic     image.Image // of a layer, for the generator
	Beyond  string      // an opacity that is out of range, as it is written
}

// OraDoc is the content of an ORA file.
type OraDoc struct {
	W, H    int
	Root    []*OraNode
	Files   map[string][]byte
	Order   []string
	Leaves  []*OraNode
	Version string
}

// ReadOra reads an ORA file strictly, as the OpenRaster specification has it.
func ReadOra(data []byte) (*OraDoc, error) {
	zr, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		return nil, err
	}

	d := &OraDoc{Files: map[string][]byte{}}

	if len(zr.File) == 0 {
		return nil, errors.New("empty archive")
	}

	for n, f := range zr.File {
		if _, ok := d.Files[f.Name]; ok {
			return nil, fmt.Errorf("entry %q twice", f.Name)
		}

		r, err := f.Open()
		if err != nil {
			return nil, fmt.Errorf("entry %q: %w", f.Name, err)
		}

		b, err := io.ReadAll(r)
		r.Close()

		if err != nil {
			return nil, fmt.Errorf("entry %q: %w", f.Name, err)
		}

		d.Files[f.Name] = b
		d.Order = append(d.Order, f.Name)

		if n == 0 {
			if f.Name != "mimetype" || f.Method != zip.Store || string(b) != "image/openraster" {
				return nil, fmt.Errorf("first entry is %q, method %d, content %q", f.Name, f.Method, b)
			}

			if off, err := f.DataOffset(); err != nil || len(data) < 46 || !bytes.Equal(data[:4], []byte("PK\x03\x04")) || off < 38 || !bytes.Equal(data[30:38], []byte("mimetype")) || !bytes.Equal(data[off:off+16], []byte("image/openraster")) {
				return nil, errors.New("the file does not start with an uncompressed mimetype")
			}
		}
	}

	for _, n := range []string{"stack.xml", "mergedimage.png", "Thumbnails/thumbnail.png"} {
		if _, ok := d.Files[n]; !ok {
			return nil, fmt.Errorf("no entry %q", n)
		}
	}

	if err := d.parse(d.Files["stack.xml"]); err != nil {
		return nil, fmt.Errorf("stack.xml: %w\n%s", err, d.Files["stack.xml"])
	}

	return d, nil
}

func attrs(e xml.StartElement) (map[string]string, error) {
	m := map[string]string{}

	for _, a := range e.Attr {
		k := a.Name.Local
		if a.Name.Space != "" {
			k = a.Name.Space + ":" + k
		}

		if _, ok := m[k]; ok {
			return nil, fmt.Errorf("attribute %q twice in %s", k, e.Name.Local)
		}

		m[k] = a.Value
	}

	return m, nil
}

func (d *OraDoc) parse(b []byte) error {
	x := xml.NewDecoder(bytes.NewReader(b))
	srcs := map[string]bool{}

	var (
		stack []*OraNode // nil for image
		depth int
		done  bool
		roots int
	)

	for {
		t, err := x.Token()
		if errors.Is(err, io.EOF) {
			break
		} else if err != nil {
			return err
		}

		switch t := t.(type) {
		case xml.CharData:
			if strings.TrimSpace(string(t)) != "" {
				return fmt.Errorf("text %q", string(t))
			}
		case xml.StartElement:
			a, err := attrs(t)
			if err != nil {
				return err
			}

			if done {
				return errors.New("two root elements")
			}

			if depth == 0 {
				if t.Name.Local != "image" {
					return fmt.Errorf("root is %q", t.Name.Local)
				}

				var e1, e2 error

				d.W, e1 = strconv.Atoi(a["w"])
				d.H, e2 = strconv.Atoi(a["h"])

				if e1 != nil || e2 != nil || d.W < 1 || d.H < 1 {
					return fmt.Errorf("canvas is %q by %q", a["w"], a["h"])
				}

				switch d.Version = a["version"]; d.Version {
				case "0.0.1", "0.0.2", "0.0.3", "0.0.4", "0.0.5", "0.0.6":
				default:
					return fmt.Errorf("version is %q", d.Version)
				}
			} else {
				n := &OraNode{Name: a["name"], Opacity: 1, Op: "svg:src-over", Src: a["src"]}

				for k, v := range a {
					var err error

					switch k {
					case "name", "src":
					case "x":
						n.X, err = strconv.Atoi(v)
					case "y":
						n.Y, err = strconv.Atoi(v)
					case "opacity":
						n.Opacity, err = strconv.ParseFloat(v, 64)
						if err == nil && !(n.Opacity >= 0 && n.Opacity <= 1) {
							err = errors.New("out of range")
						}
					case "visibility":
						n.Hidden = v == "hidden"
						if !n.Hidden && v != "visible" {
							err = errors.New("neither visible nor hidden")
						}
					case "composite-op":
						if _, ok := OraOps[v]; !ok {
							err = errors.New("unknown operation")
						}

						n.Op = v
					case "isolation", "selected", "edit-locked":
					default:
						err = errors.New("unknown attribute")
					}

					if err != nil {
						return fmt.Errorf("attribute %s=%q: %w", k, v, err)
					}
				}

				switch t.Name.Local {
				case "stack":
					n.Stack = true
				case "layer":
					if _, ok := d.Files[n.Src]; !ok || n.Src == "" {
						return fmt.Errorf("layer source %q does not exist", n.Src)
					}

					if srcs[n.Src] {
						return fmt.Errorf("layer source %q used twice", n.Src)
					}

					srcs[n.Src] = true
					d.Leaves = append(d.Leaves, n)
				default:
					return fmt.Errorf("element %q", t.Name.Local)
				}

				if depth == 1 {
					roots++
					if !n.Stack || roots > 1 {
						return errors.New("not one stack in the image")
					}

					if n.Name != "" || n.X != 0 || n.Y != 0 || n.Hidden || n.Opacity != 1 || n.Op != "svg:src-over" {
						return errors.New("the root stack has attributes")
					}
				} else {
					p := stack[len(stack)-1]
					if p == nil || !p.Stack {
						return errors.New("an element within a layer")
					}

					p.Kids = append(p.Kids, n)
				}

				stack = append(stack, n)
			}

			depth++
		case xml.EndElement:
			depth--

			if depth == 0 {
				done = true
			} else {
				n := stack[len(stack)-1]
				stack = stack[:len(stack)-1]

				if depth == 1 {
					d.Root = n.Kids
				}
			}
		}
	}

	if !done || roots != 1 {
		return errors.New("no image with a stack")
	}

	return nil
}

// --- foreign files -----------------------------------------------------------

// ZipEntry is an entry to be written.
type ZipEntry struct {
	Name   string
	Data   []byte
	Method uint16
}

// WriteZip writes an archive.
func WriteZip(es []ZipEntry) []byte {
	var b bytes.Buffer

	zw := zip.NewWriter(&b)

	for _, e := range es {
		w, err := zw.CreateHeader(&zip.FileHeader{Name: e.Name, Method: e.Method})
		if err != nil {
			panic(err)
		}

		if _, err := w.Write(e.Data); err != nil {
			panic(err)
		}
	}

	if err := zw.Close(); err != nil {
		panic(err)
	}

	return b.Bytes()
}

// OpenZip opens an archive held in memory.
func OpenZip(b []byte) (*zip.Reader, error) {
	return zip.NewReader(bytes.NewReader(b), int64(len(b)))
}

// OraForeign generates OpenRaster files.
type OraForeign struct {
	R       *rt.Rng
	W, H    int
	Inside  bool // all layers inside the canvas
	Normal  bool // Normal mode only, pictures with alpha
	Plain   bool // nothing that is not needed
	Depth   int
	entries []ZipEntry
	nodes   int
	Store   bool
}

func (o *OraForeign) method() uint16 {
	if o.Store || o.R.P(3) {
		return zip.Store
	}

	return zip.Deflate
}

var oraKinds = []int{KNRGBA, KNRGBA, KRGBA, KGray, KGray16, KNRGBA64, KPaletted, KRGB}

func (o *OraForeign) picture() (string, image.Image) {
	r := o.R
	w, h := r.R(1, 9), r.R(1, 9)

	if r.P(20) {
		w = r.R(60, 140)
	}

	k := oraKinds[r.N(len(oraKinds))]
	if o.Normal {
		k = KNRGBA
	}

	i := NewLeaf(r, k, image.Rect(0, 0, w, h), Palette(r, 0), false)

	var b bytes.Buffer

	enc := png.Encoder{CompressionLevel: []png.CompressionLevel{png.DefaultCompression, png.NoCompression, png.BestSpeed}[r.N(3)]}
	if err := enc.Encode(&b, i); err != nil {
		panic(err)
	}

	name := fmt.Sprintf("data/layer%d.png", len(o.entries))

	switch {
	case o.Plain:
	case r.P(6):
		name = fmt.Sprintf("%d", len(o.entries))
	case r.P(6):
		name = fmt.Sprintf("a/b/<%d> & \"ü漢\" '%d'", len(o.entries), r.N(10))
	case len(o.entries) > 0 && r.P(3): // a name like another's
		other := o.entries[r.N(len(o.entries))].Name
		name = r.PickS(strings.ToUpper(other), strings.ToLower(other), other+"x", "x"+other, other+".png", "./"+other, other+" ", " "+other, strings.ReplaceAll(other, "/", "//"), strings.TrimSuffix(other, ".png"), strings.ReplaceAll(other, "/", "\\"))

		for _, e := range o.entries {
			if e.Name == name {
				name = fmt.Sprintf("data/layer%d.png", len(o.entries))
			}
		}
	}

	o.entries = append(o.entries, ZipEntry{name, b.Bytes(), o.method()})

	p, err := png.Decode(bytes.NewReader(b.Bytes()))
	if err != nil {
		panic(err)
	}

	return name, p
}

func (o *OraForeign) node(depth int, origin image.Point, known []*OraNode) *OraNode {
	r := o.R
	o.nodes++
	n := &OraNode{Name: Name(r), Opacity: 1, Op: "svg:src-over"}

	if o.Normal || r.P(3) {
	} else if r.P(12) {
		n.Op = r.PickS("svg:clear", "krita:erase", "", "svg:xor", "normal", "multiply")
	} else {
		var ops []string

		for k := range OraOps {
			ops = append(ops, k)
		}

		sort.Strings(ops)

		n.Op = ops[r.N(len(ops))]
	}

	n.Hidden = r.P(5)

	if r.P(2) {
		n.Opacity = float64(r.N(1001)) / 1000
		if r.P(3) {
			n.Opacity = float64(r.N(2))
		} else if r.P(3) {
			n.Opacity = float64(r.Edge8()) / 255
		}

		if !o.Plain && r.P(10) {
			n.Beyond = r.PickS("-1", "-0.004", "-0.5", "-257", "-1e300", "1.004", "1.5", "2", "257", "1e300", "1.00000000001", "-1e-12")
			n.Opacity = 1

			if n.Beyond[0] == '-' {
				n.Opacity = 0
			}
		}
	}

	if depth > 0 && r.P(3) {
		n.Stack = true
	} else {
		n.Src, n.Pic = o.picture()
	}

	if !r.P(3) {
		n.X, n.Y = r.R(-6, o.W), r.R(-6, o.H)
		if r.P(6) {
			n.X, n.Y = r.R(-100, 100), r.R(-100, 100)
		}

		if n.Stack && r.P(8) { // far away
			n.X, n.Y = r.R(-1<<20, 1<<20), r.R(-1<<20, 1<<20)
		} else if r.P(4) { // on the canvas, wherever the group is
			n.X, n.Y = r.R(-6, o.W)-origin.X, r.R(-6, o.H)-origin.Y
		}
	}

	if o.Inside {
		w, h := 0, 0
		if n.Pic != nil {
			w, h = n.Pic.Bounds().Dx(), n.Pic.Bounds().Dy()
		}

		mx, my := o.W-origin.X-w, o.H-origin.Y-h
		if mx < 0 {
			mx = 0
		}

		if my < 0 {
			my = 0
		}

		n.X, n.Y = r.R(0, mx), r.R(0, my)
	}

	if n.Stack {
		for k := r.R(0, 3); k > 0; k-- {
			n.Kids = append(n.Kids, o.node(depth-1, origin.Add(image.Pt(n.X, n.Y)), known))
		}
	}

	return n
}

// Make makes a file: its content, its bytes and its entries.
func (o *OraForeign) Make() (*OraDoc, []ZipEntry, string) {
	r := o.R
	d := &OraDoc{W: o.W, H: o.H}

	for k := r.R(1, 4); k > 0; k-- {
		d.Root = append(d.Root, o.node(o.Depth, image.Point{}, nil))
	}

	// two layers may have the same source
	var ls []*OraNode

	var walk func(ns []*OraNode)

	walk = func(ns []*OraNode) {
		for _, n := range ns {
			if n.Stack {
				walk(n.Kids)
			} else {
				ls = append(ls, n)
			}
		}
	}

	walk(d.Root)

	if len(ls) > 1 && !o.Plain && !o.Inside && r.P(6) {
		a, b := ls[0], ls[len(ls)-1]
		b.Src, b.Pic = a.Src, a.Pic
	}

	d.Leaves = ls
	x := o.XML(d)

	es := []ZipEntry{{"mimetype", []byte("image/openraster"), zip.Store}}
	rest := append([]ZipEntry{{"stack.xml", []byte(x), o.method()}}, o.entries...)

	if !o.Plain {
		for _, n := range []string{"mergedimage.png", "Thumbnails/thumbnail.png"} {
			if !r.P(3) {
				rest = append(rest, ZipEntry{n, []byte("anything"), o.method()})
			}
		}

		for k := r.N(3); k > 0; k-- {
			rest = append(rest, ZipEntry{fmt.Sprintf("extra/%d/%s", k, r.PickS("stack.xml", "mimetype", "x")), []byte("junk"), o.method()})
		}

		if r.P(4) {
			rest = append(rest, ZipEntry{"data/", nil, zip.Store})
		}

		r.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
	}

	es = append(es, rest...)

	if !o.Plain && r.P(6) { // not where it should be
		k := r.N(len(es))
		es[0], es[k] = es[k], es[0]

		if r.B() {
			es[k].Method = o.method()
		}
	}

	return d, es, x
}

// XMLText escapes a text in one of several ways.
func XMLText(r *rt.Rng, s string, quote rune) string {
	var b strings.Builder

	for _, c := range s {
		switch {
		case c == '&':
			b.WriteString(r.PickS("&amp;", "&#38;", "&#x26;"))
		case c == '<':
			b.WriteString(r.PickS("&lt;", "&#60;"))
		case c == '>' && (b.Len() == 0 || strings.HasSuffix(b.String(), "]") || r.B()):
			b.WriteString("&gt;")
		case c == quote:
			if c == '"' {
				b.WriteString(r.PickS("&quot;", "&#34;"))
			} else {
				b.WriteString(r.PickS("&apos;", "&#39;"))
			}
		case c == '\n' || c == '\t' || c == '\r':
			fmt.Fprintf(&b, "&#%d;", c)
		case c > 0x7f && r.P(5):
			fmt.Fprintf(&b, "&#x%X;", c)
		default:
			b.WriteRune(c)
		}
	}

	return b.String()
}

// XML writes stack.xml.
func (o *OraForeign) XML(d *OraDoc) string {
	r := o.R

	var b strings.Builder

	sp := func() {
		if !o.Plain && r.P(2) {
			b.WriteString(r.PickS("\n", " ", "\t", "\r\n  ", "<!-- a <comment> with <stack> & <layer src='x'/> -->", "<?pi stuff?>"))
		}
	}
	junk := func() {
		if !o.Plain && r.P(6) {
			b.WriteString(r.PickS("<text>words <stack><layer src=\"nowhere\" x=\"y\"/></stack></text>", "<filter type=\"a\"/>", "<foo:bar xmlns:foo='urn:x'><layer/><stack/><foo:bar/></foo:bar>", "<a><a><a><layer/></a></a><stack x='z'/></a>"))
		}

		sp()
	}

	type at struct{ k, v string }

	open := func(name string, as []at, empty bool) {
		b.WriteString("<" + name)

		if !o.Plain {
			r.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
		}

		for _, a := range as {
			q := '"'
			if !o.Plain && r.P(3) {
				q = '\''
			}

			if o.Plain {
				b.WriteString(" ")
			} else {
				b.WriteString(r.PickS(" ", "\n\t", "  "))
			}

			fmt.Fprintf(&b, "%s%s%c%s%c", a.k, map[bool]string{true: "=", false: " = "}[o.Plain || !r.P(8)], q, XMLText(r, a.v, q), q)
		}

		if empty {
			b.WriteString(" /")
		}

		b.WriteString(">")
	}

	if o.Plain || !r.P(4) {
		b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n")
	}

	sp()

	if !o.Plain && r.P(8) {
		b.WriteString("<!DOCTYPE image>")
	}

	as := []at{{"w", strconv.Itoa(d.W)}, {"h", strconv.Itoa(d.H)}}
	if !r.P(3) {
		as = append(as, at{"version", "0.0.3"})
	}

	if !o.Plain && r.P(3) {
		as = append(as, at{"xres", "72"}, at{"yres", "72"}, at{"name", "x"})
	}

	if !o.Plain {
		as = append(as, at{"xmlns:p", "urn:p"})

		if r.P(4) {
			as = append(as, at{"p:" + r.PickS("w", "h"), r.PickS("1", "x")})
		}
	}

	open("image", as, false)
	junk()

	var write func(n *OraNode)

	write = func(n *OraNode) {
		junk()

		var as []at

		if n.Name != "" || r.P(3) {
			as = append(as, at{"name", n.Name})
		}

		if n.X != 0 || r.P(3) {
			as = append(as, at{"x", strconv.Itoa(n.X)})
		}

		if n.Y != 0 || r.P(3) {
			as = append(as, at{"y", strconv.Itoa(n.Y)})
		}

		if n.Hidden {
			as = append(as, at{"visibility", "hidden"})
		} else if r.P(3) {
			as = append(as, at{"visibility", "visible"})
		}

		if n.Beyond != "" {
			as = append(as, at{"opacity", n.Beyond})
		} else if n.Opacity != 1 || r.P(3) {
			as = append(as, at{"opacity", strconv.FormatFloat(n.Opacity, byte(r.Pick('f', 'f', 'e', 'g')), -1, 64)})
		}

		if n.Op != "svg:src-over" || r.P(3) {
			as = append(as, at{"composite-op", n.Op})
		}

		if !o.Plain && r.P(4) {
			as = append(as, at{r.PickS("isolation", "edit-locked", "selected", "opacity2", "X", "srcset"), r.PickS("auto", "true", "isolate", "x")})
		}

		if !o.Plain && r.P(6) {
			as = append(as, at{"p:" + r.PickS("name", "x", "y", "opacity", "visibility", "composite-op", "src"), r.PickS("0", "0.25", "hidden", "svg:plus", "nothing")})
		}

		name := "layer"

		if n.Stack {
			name = "stack"
		} else {
			as = append(as, at{"src", n.Src})
		}

		if len(n.Kids) == 0 && (o.Plain || r.B()) {
			open(name, as, true)

			return
		}

		open(name, as, false)
		junk()

		for _, k := range n.Kids {
			write(k)
		}

		junk()
		b.WriteString("</" + name + ">")
	}

	if o.Plain || r.P(2) {
		b.WriteString("<stack>")
	} else {
		b.WriteString("<stack isolation='auto' >")
	}

	for _, n := range d.Root {
		write(n)
	}

	junk()
	b.WriteString("</stack>")
	junk()
	b.WriteString("</image>")
	sp()

	return b.String()
}
