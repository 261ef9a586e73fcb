From 53fe003dee7b714f77deabaf0d9e538058869a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:02 +0000
Subject: [PATCH 01/72] fix: blend green and blue with the bottom's own green
 and blue

The separable blend modes computed every channel from the red of the bottom
colour.
---
 composite.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composite.go b/composite.go
index 0033617..4b099f1 100644
--- a/composite.go
+++ b/composite.go
@@ -171,8 +171,8 @@ func (c Composite) Composite(b, t color.Color) color.Color {
 
 	return color.NRGBA64{
 		R: blend(bottom.A, bottom.R, ma, f(bottom.R, top.R)),
-		G: blend(bottom.A, bottom.G, ma, f(bottom.R, top.G)),
-		B: blend(bottom.A, bottom.B, ma, f(bottom.R, top.B)),
+		G: blend(bottom.A, bottom.G, ma, f(bottom.G, top.G)),
+		B: blend(bottom.A, bottom.B, ma, f(bottom.B, top.B)),
 		A: bottom.A,
 	}
 }
-- 
2.43.0


From de73658cd4386ba4002b4d80a069f1b64f26764b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:02 +0000
Subject: [PATCH 02/72] fix: burn darkens instead of wrapping around

The quotient can exceed 0xffff, so that subtracting it wrapped around and was
clamped to white; and a black top turned everything but white white.
---
 composite.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/composite.go b/composite.go
index 4b099f1..4092109 100644
--- a/composite.go
+++ b/composite.go
@@ -271,13 +271,13 @@ func compositeDodge(x, y uint16) uint16 {
 func compositeBurn(x, y uint16) uint16 {
 	if y == 0 {
 		if x == 0xffff {
-			return 0
+			return 0xffff
 		}
 
-		return 0xffff
+		return 0
 	}
 
-	return clamp(0xffff - 0xffff*(0xffff-uint32(x))/uint32(y))
+	return 0xffff - clamp(0xffff*(0xffff-uint32(x))/uint32(y))
 }
 
 func compositeHardLight(x, y uint16) uint16 {
-- 
2.43.0


From e7adfc7fad49f675bd03dbb9bccf33c6d1739965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:02 +0000
Subject: [PATCH 03/72] fix: dissolve by the alpha of the top layer

The chance of the top being shown depended on the alpha of the bottom.
---
 composite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index 4092109..fb1c56d 100644
--- a/composite.go
+++ b/composite.go
@@ -191,7 +191,7 @@ func compositeNormal(bottom, top color.NRGBA64) color.NRGBA64 {
 }
 
 func compositeDissolve(bottom, top color.NRGBA64) color.NRGBA64 {
-	if uint16(rand.Int31n(0xffff)) < bottom.A {
+	if uint16(rand.Int31n(0xffff)) < top.A {
 		top.A = 0xffff
 
 		return top
-- 
2.43.0


From dc41e9b00806888580fbbfe576ebe7978499da41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:02 +0000
Subject: [PATCH 04/72] fix: overlay and soft light screen the bottom with
 itself

The screen part of the formula was computed from the top colour.
---
 composite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index fb1c56d..66920b2 100644
--- a/composite.go
+++ b/composite.go
@@ -211,7 +211,7 @@ func compositeScreen(x, y uint16) uint16 {
 func compositeOverlay(ax, ay uint16) uint16 {
 	x := uint32(ax)
 	y := uint32(ay)
-	t := 0xffff - y
+	t := 0xffff - x
 
 	return uint16((0xffff-y)*(x*x/0xffff)/0xffff + y*(0xffff-(t*t/0xffff))/0xffff)
 }
-- 
2.43.0


From 717efef1863e2f01c77f3884b696ae4629540373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:02 +0000
Subject: [PATCH 05/72] fix: grain merge subtracts the middle grey

Grain merge is bottom + top - 1/2, the inverse of grain extract.
---
 composite.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/composite.go b/composite.go
index 66920b2..dec3e91 100644
--- a/composite.go
+++ b/composite.go
@@ -303,8 +303,15 @@ func compositeGrainExtract(ax, ay uint16) uint16 {
 	return clamp(x - y + 0x7fff)
 }
 
-func compositeGrainMerge(x, y uint16) uint16 {
-	return clamp(uint32(x) + uint32(y) + 0x7fff)
+func compositeGrainMerge(ax, ay uint16) uint16 {
+	x := uint32(ax)
+	y := uint32(ay)
+
+	if x+y < 0x7fff {
+		return 0
+	}
+
+	return clamp(x + y - 0x7fff)
 }
 
 func compositeHue(bottom, top color.NRGBA64) color.Color {
-- 
2.43.0


From 6767733adab82fd1377c864696ea478682e02f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:02 +0000
Subject: [PATCH 06/72] fix: hue, saturation, colour, value and luminosity
 respect alpha

These modes ignored the alpha of the top, so that invisible pixels recoloured
what is below, and the colour mode returned the alpha of the top. They now
paint the new colour over the bottom like the other blend modes do.
---
 composite.go | 46 +++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/composite.go b/composite.go
index dec3e91..f677bec 100644
--- a/composite.go
+++ b/composite.go
@@ -140,15 +140,15 @@ func (c Composite) Composite(b, t color.Color) color.Color {
 	case CompositeDissolve:
 		return compositeDissolve(bottom, top)
 	case CompositeHue:
-		return compositeHue(bottom, top)
+		return blendColour(bottom, top, compositeHue(bottom, top))
 	case CompositeSaturation:
-		return compositeSaturation(bottom, top)
+		return blendColour(bottom, top, compositeSaturation(bottom, top))
 	case CompositeColor:
-		return compositeColor(bottom, top)
+		return blendColour(bottom, top, compositeColor(bottom, top))
 	case CompositeValue:
-		return compositeValue(bottom, top)
+		return blendColour(bottom, top, compositeValue(bottom, top))
 	case CompositeLuminosity:
-		return compositeColor(top, bottom)
+		return blendColour(bottom, top, compositeColor(top, bottom))
 	case CompositePlus:
 		return compositePlus(bottom, top)
 	case CompositeDestinationIn:
@@ -163,6 +163,15 @@ func (c Composite) Composite(b, t color.Color) color.Color {
 		return compositeNormal(bottom, top)
 	}
 
+	return blendColour(bottom, top, color.NRGBA64{
+		R: f(bottom.R, top.R),
+		G: f(bottom.G, top.G),
+		B: f(bottom.B, top.B),
+	})
+}
+
+// blendColour paints the colour c over the bottom with the smaller alpha.
+func blendColour(bottom, top, c color.NRGBA64) color.Color {
 	if bottom.A == 0 {
 		return color.NRGBA{}
 	}
@@ -170,9 +179,9 @@ func (c Composite) Composite(b, t color.Color) color.Color {
 	ma := internal.Min(bottom.A, top.A)
 
 	return color.NRGBA64{
-		R: blend(bottom.A, bottom.R, ma, f(bottom.R, top.R)),
-		G: blend(bottom.A, bottom.G, ma, f(bottom.G, top.G)),
-		B: blend(bottom.A, bottom.B, ma, f(bottom.B, top.B)),
+		R: blend(bottom.A, bottom.R, ma, c.R),
+		G: blend(bottom.A, bottom.G, ma, c.G),
+		B: blend(bottom.A, bottom.B, ma, c.B),
 		A: bottom.A,
 	}
 }
@@ -314,10 +323,8 @@ func compositeGrainMerge(ax, ay uint16) uint16 {
 	return clamp(x + y - 0x7fff)
 }
 
-func compositeHue(bottom, top color.NRGBA64) color.Color {
-	br, bg, bb, _ := top.RGBA()
-
-	if br == bg && br == bb {
+func compositeHue(bottom, top color.NRGBA64) color.NRGBA64 {
+	if top.R == top.G && top.R == top.B {
 		return bottom
 	}
 
@@ -325,30 +332,31 @@ func compositeHue(bottom, top color.NRGBA64) color.Color {
 	b := lcolor.RGBToHSV(top)
 	a.H = b.H
 
-	return a
+	return a.ToNRGBA()
 }
 
-func compositeSaturation(bottom, top color.NRGBA64) color.Color {
+func compositeSaturation(bottom, top color.NRGBA64) color.NRGBA64 {
 	a := lcolor.RGBToHSV(bottom)
 	b := lcolor.RGBToHSV(top)
 	a.S = b.S
-	return a
+
+	return a.ToNRGBA()
 }
 
-func compositeColor(bottom, top color.NRGBA64) color.Color {
+func compositeColor(bottom, top color.NRGBA64) color.NRGBA64 {
 	a := lcolor.RGBToHSL(bottom)
 	b := lcolor.RGBToHSL(top)
 	b.L = a.L
 
-	return b
+	return b.ToNRGBA()
 }
 
-func compositeValue(bottom, top color.NRGBA64) color.Color {
+func compositeValue(bottom, top color.NRGBA64) color.NRGBA64 {
 	a := lcolor.RGBToHSV(bottom)
 	b := lcolor.RGBToHSV(top)
 	a.V = b.V
 
-	return a
+	return a.ToNRGBA()
 }
 
 func compositePlus(bottom, top color.NRGBA64) color.NRGBA64 {
-- 
2.43.0


From 559681ef15f2b1c5ddd21598cc31c2df7f3aa876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:46 +0000
Subject: [PATCH 07/72] fix: implement plus and the Porter-Duff modes

Plus, Destination In, Destination Out, Source Atop and Destination Atop were
composed as Normal.
---
 composite.go | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/composite.go b/composite.go
index f677bec..51ff2c9 100644
--- a/composite.go
+++ b/composite.go
@@ -360,19 +360,50 @@ func compositeValue(bottom, top color.NRGBA64) color.NRGBA64 {
 }
 
 func compositePlus(bottom, top color.NRGBA64) color.NRGBA64 {
-	return compositeNormal(bottom, top)
+	a := clamp(uint32(bottom.A) + uint32(top.A))
+	if a == 0 {
+		return color.NRGBA64{}
+	}
+
+	plus := func(x, y uint16) uint16 {
+		if p := (uint64(x)*uint64(bottom.A) + uint64(y)*uint64(top.A)) / uint64(a); p < 0xffff {
+			return uint16(p)
+		}
+
+		return 0xffff
+	}
+
+	return color.NRGBA64{
+		R: plus(bottom.R, top.R),
+		G: plus(bottom.G, top.G),
+		B: plus(bottom.B, top.B),
+		A: a,
+	}
 }
 
 func compositeDstIn(bottom, top color.NRGBA64) color.NRGBA64 {
-	return compositeNormal(bottom, top)
+	bottom.A = uint16(uint32(bottom.A) * uint32(top.A) / 0xffff)
+
+	return bottom
 }
 
 func compositeDstOut(bottom, top color.NRGBA64) color.NRGBA64 {
-	return compositeNormal(bottom, top)
+	top.A = 0xffff - top.A
+
+	return compositeDstIn(bottom, top)
 }
 
 func compositeAtop(bottom, top color.NRGBA64) color.NRGBA64 {
-	return compositeNormal(bottom, top)
+	if bottom.A == 0 {
+		return color.NRGBA64{}
+	}
+
+	return color.NRGBA64{
+		R: blend(0xffff, bottom.R, top.A, top.R),
+		G: blend(0xffff, bottom.G, top.A, top.G),
+		B: blend(0xffff, bottom.B, top.A, top.B),
+		A: bottom.A,
+	}
 }
 
 func clamp(n uint32) uint16 {
-- 
2.43.0


From 518ee49ded1f8e6ebd99a465afd006bbd50c9c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:47 +0000
Subject: [PATCH 08/72] fix: name every blend mode

The modes after Destination Atop were all named Normal.
---
 composite.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/composite.go b/composite.go
index 51ff2c9..b009ebf 100644
--- a/composite.go
+++ b/composite.go
@@ -86,6 +86,20 @@ var compositeNames = [...]string{
 	"Destination Out",
 	"Source Atop",
 	"Destination Atop",
+	"Color Erase",
+	"Chroma",
+	"Lightness",
+	"Vivid Light",
+	"Pin Light",
+	"Linear Light",
+	"Hard Mix",
+	"Exclusion",
+	"Linear Burn",
+	"Luminance",
+	"Erase",
+	"Merge",
+	"Split",
+	"Pass Through",
 }
 
 // String returns the name of the composition.
-- 
2.43.0


From 5b83ee10b2f428a33278535f6b8f896fd2bb4e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:47 +0000
Subject: [PATCH 09/72] fix: convert HSL colours to RGB by their chroma

The chroma is 2L up to half lightness and 2-2L above it, and its half is taken
from the lightness.
---
 lcolor/hsl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcolor/hsl.go b/lcolor/hsl.go
index b623cef..978d35e 100644
--- a/lcolor/hsl.go
+++ b/lcolor/hsl.go
@@ -57,13 +57,13 @@ func (h HSLA) ToNRGBA() color.NRGBA64 {
 	}
 
 	c := uint32(h.L) << 1
-	if c < 0x7fff {
+	if c > 0xffff {
 		c = 0x1fffe - c
 	}
 
 	c = c * uint32(h.S) / 0xffff
 
-	return hcmaToColour(uint32(h.H), c, h.L-uint16(c>>2), h.A)
+	return hcmaToColour(uint32(h.H), c, h.L-uint16(c>>1), h.A)
 }
 
 // HSVA represents the Hue, Saturation, Value and Alpha of a pixel.
-- 
2.43.0


From 842b9509c483de951c9e65c7f7292b5185884fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:48 +0000
Subject: [PATCH 10/72] fix: convert to grey+alpha by the straight colour

The grey level was that of the premultiplied colour, so that translucent pixels
came out too dark, and darker each time they were converted.
---
 lcolor/gray.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lcolor/gray.go b/lcolor/gray.go
index 71a16dc..d2e954a 100644
--- a/lcolor/gray.go
+++ b/lcolor/gray.go
@@ -1,6 +1,10 @@
 package lcolor
 
-import "image/color"
+import (
+	"image/color"
+
+	"vimagination.zapto.org/limage/internal"
+)
 
 // GrayAlpha represents a Gray color with an Alpha channel.
 type GrayAlpha struct {
@@ -30,10 +34,16 @@ func (c GrayAlpha) ToNRGBA() color.NRGBA64 {
 }
 
 func grayAlphaColourModel(c color.Color) color.Color {
-	_, _, _, a := c.RGBA()
+	if ga, ok := c.(GrayAlpha); ok {
+		return ga
+	}
+
+	n := internal.ColourToNRGBA(c)
+	a := n.A
+	n.A = 0xffff
 
 	return GrayAlpha{
-		Y: color.GrayModel.Convert(c).(color.Gray).Y,
+		Y: color.GrayModel.Convert(n).(color.Gray).Y,
 		A: uint8(a >> 8),
 	}
 }
-- 
2.43.0


From 9cd9842a027a6cb1c132923fdb93e38055f00721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:48 +0000
Subject: [PATCH 11/72] fix: find the nearest palette entry by the straight
 colour

The alpha and the premultiplied components were compared with the opaque
entries, so that translucent colours were matched with darker ones.
---
 lcolor/indexed.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lcolor/indexed.go b/lcolor/indexed.go
index 27afb72..52c74ce 100644
--- a/lcolor/indexed.go
+++ b/lcolor/indexed.go
@@ -1,6 +1,10 @@
 package lcolor
 
-import "image/color"
+import (
+	"image/color"
+
+	"vimagination.zapto.org/limage/internal"
+)
 
 // AlphaPalette is an extension to the normal color.Palette type.
 type AlphaPalette color.Palette
@@ -8,7 +12,7 @@ type AlphaPalette color.Palette
 // Convert converts the given color to the nearest color in the palette, but
 // preserves the alpha channel.
 func (ap AlphaPalette) Convert(c color.Color) color.Color {
-	r, g, b, _ := color.Palette(ap).Convert(c).RGBA()
+	r, g, b, _ := ap[ap.Index(c)].RGBA()
 	_, _, _, a := c.RGBA()
 
 	return color.NRGBA64{
@@ -21,7 +25,10 @@ func (ap AlphaPalette) Convert(c color.Color) color.Color {
 
 // Index returns the palette index of the nearest color.
 func (ap AlphaPalette) Index(c color.Color) int {
-	return color.Palette(ap).Index(c)
+	n := internal.ColourToNRGBA(c)
+	n.A = 0xffff
+
+	return color.Palette(ap).Index(n)
 }
 
 // IndexedAlpha is the combination of a palette index and an Alpha channel.
-- 
2.43.0


From 2ecec01f7bba636ccfa53ea6d0efe82f7b407d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:16 +0000
Subject: [PATCH 12/72] fix: report opacity by the pixels within the bounds

PalettedAlpha.Opaque was inverted, and both it and GrayAlpha.Opaque looked at
the pixels beyond the bounds of a sub-image.
---
 grayalpha.go    |  8 +++++---
 indexedalpha.go | 10 ++++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/grayalpha.go b/grayalpha.go
index 2349a4b..92c396d 100644
--- a/grayalpha.go
+++ b/grayalpha.go
@@ -52,9 +52,11 @@ func (g *GrayAlpha) GrayAlphaAt(x, y int) lcolor.GrayAlpha {
 
 // Opaque returns true if all pixels have full alpha.
 func (g *GrayAlpha) Opaque() bool {
-	for _, c := range g.Pix {
-		if c.A != 255 {
-			return false
+	for y := g.Rect.Min.Y; y < g.Rect.Max.Y; y++ {
+		for x := g.Rect.Min.X; x < g.Rect.Max.X; x++ {
+			if g.Pix[g.PixOffset(x, y)].A != 255 {
+				return false
+			}
 		}
 	}
 
diff --git a/indexedalpha.go b/indexedalpha.go
index dd51a6f..8de9420 100644
--- a/indexedalpha.go
+++ b/indexedalpha.go
@@ -66,13 +66,15 @@ func (p *PalettedAlpha) IndexAlphaAt(x, y int) lcolor.IndexedAlpha {
 
 // Opaque returns true if the image is completely opaque.
 func (p *PalettedAlpha) Opaque() bool {
-	for _, c := range p.Pix {
-		if c.A != 255 {
-			return true
+	for y := p.Rect.Min.Y; y < p.Rect.Max.Y; y++ {
+		for x := p.Rect.Min.X; x < p.Rect.Max.X; x++ {
+			if p.Pix[p.PixOffset(x, y)].A != 255 {
+				return false
+			}
 		}
 	}
 
-	return false
+	return true
 }
 
 // PixOffset returns the index of the Pix array corresponding to the given
-- 
2.43.0


From 590386dd172b475d0dc0bed8e632bab064d7fcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:17 +0000
Subject: [PATCH 13/72] fix: keep the palette in an empty sub-image

Without a palette its pixels are nil colours.
---
 indexedalpha.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedalpha.go b/indexedalpha.go
index 8de9420..5f4a1a9 100644
--- a/indexedalpha.go
+++ b/indexedalpha.go
@@ -111,7 +111,7 @@ func (p *PalettedAlpha) SubImage(r image.Rectangle) image.Image {
 	r = r.Intersect(p.Rect)
 
 	if r.Empty() {
-		return &PalettedAlpha{}
+		return &PalettedAlpha{Palette: p.Palette}
 	}
 
 	return &PalettedAlpha{
-- 
2.43.0


From 730f32ed3cb9a0a91d8daac1bd1dea3a687e63d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:56 +0000
Subject: [PATCH 14/72] fix: sub-images of layers keep showing the same picture

Cutting a layer from the left or top moved the origin of its bounds and so
moved its picture, and the parts of its image beyond the rectangle remained.
---
 layer.go | 67 +++++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 66 insertions(+), 1 deletion(-)

diff --git a/layer.go b/layer.go
index f156769..e921dea 100644
--- a/layer.go
+++ b/layer.go
@@ -34,7 +34,72 @@ func (l Layer) SubImage(r image.Rectangle) image.Image {
 // SubImageLayer returns an image representing the portion of the image p
 // visible through r. The returned value shares pixels with the original image.
 func (l Layer) SubImageLayer(r image.Rectangle) Layer {
-	l.LayerBounds = r.Intersect(l.LayerBounds)
+	r = r.Intersect(l.LayerBounds)
+
+	if r != l.LayerBounds {
+		l.Image = crop(l.Image, r.Sub(l.LayerBounds.Min))
+		l.LayerBounds = r
+	}
 
 	return l
 }
+
+// cropped is the portion of an image within a rectangle, moved to the origin.
+type cropped struct {
+	image.Image
+	rect image.Rectangle
+}
+
+func crop(i image.Image, r image.Rectangle) image.Image {
+	switch i := i.(type) {
+	case Image:
+		return cropGroup(i, r)
+	case *Image:
+		return cropGroup(*i, r)
+	case MaskedImage:
+		return cropMasked(i, r)
+	case *MaskedImage:
+		return cropMasked(*i, r)
+	case Text:
+		return Text{Image: crop(i.Image, r), TextData: i.TextData}
+	case *Text:
+		return Text{Image: crop(i.Image, r), TextData: i.TextData}
+	}
+
+	return cropped{Image: i, rect: r}
+}
+
+func cropGroup(g Image, r image.Rectangle) Image {
+	h := make(Image, len(g))
+
+	for n, l := range g {
+		l = l.SubImageLayer(r)
+		l.LayerBounds = l.LayerBounds.Sub(r.Min)
+		h[n] = l
+	}
+
+	return h
+}
+
+func cropMasked(m MaskedImage, r image.Rectangle) MaskedImage {
+	mask := m.Mask.SubImage(r).(*image.Gray)
+	mask.Rect = mask.Rect.Sub(r.Min)
+
+	return MaskedImage{Image: crop(m.Image, r), Mask: mask}
+}
+
+// Bounds returns the limits of the portion.
+func (c cropped) Bounds() image.Rectangle {
+	return image.Rectangle{Max: c.rect.Size()}
+}
+
+// At returns the colour at the specified coords.
+func (c cropped) At(x, y int) color.Color {
+	p := image.Point{x, y}.Add(c.rect.Min)
+
+	if !p.In(c.rect) {
+		return color.NRGBA64{}
+	}
+
+	return c.Image.At(p.X, p.Y)
+}
-- 
2.43.0


From 71cc5140853cc63ce41ac32c459d565f890745dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:28 +0000
Subject: [PATCH 15/72] fix: hard light does not wrap around just below the
 middle grey

With a top of 0x7fff the screen half of the formula gave -1 for a black bottom,
which came out as white.
---
 composite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index b009ebf..8db0109 100644
--- a/composite.go
+++ b/composite.go
@@ -304,7 +304,7 @@ func compositeBurn(x, y uint16) uint16 {
 }
 
 func compositeHardLight(x, y uint16) uint16 {
-	if y < 0x7fff {
+	if y <= 0x7fff {
 		return uint16(uint32(x) * (uint32(y) << 1) / 0xffff)
 	}
 
-- 
2.43.0


From 2ea439b47346225696c08a86a15bb6c0167f57da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:20 +0000
Subject: [PATCH 16/72] fix: write the opacity of layers to ORA files as
 opacity

It was written as a second visibility attribute, which made stack.xml ill-formed
and lost the opacity.
---
 ora/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ora/encode.go b/ora/encode.go
index f1bd534..f6f0c5a 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -195,7 +195,7 @@ func writeStack(e *xml.Encoder, lim limage.Layer, layerNum int) (int, error) {
 
 	if lim.Transparency != 0 {
 		attrs = append(attrs, xml.Attr{
-			Name:  xml.Name{Local: "visibility"},
+			Name:  xml.Name{Local: "opacity"},
 			Value: strconv.FormatFloat(float64(255-lim.Transparency)/255, 'f', -1, 64),
 		})
 	}
-- 
2.43.0


From 3e2144b8f9ab668f856f8691ac91938ea1a2e91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:20 +0000
Subject: [PATCH 17/72] fix: round the opacity of ORA layers to the nearest
 level

Truncation lost a level for many of the opacities that this package writes, and
opacities outside of 0 to 1 wrapped around.
---
 ora/stack.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ora/stack.go b/ora/stack.go
index ef75333..324794c 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -4,6 +4,7 @@ import (
 	"encoding/xml"
 	"errors"
 	"image"
+	"math"
 	"strconv"
 
 	"vimagination.zapto.org/limage"
@@ -125,7 +126,13 @@ func processLayerAttrs(l *limage.Layer, s xml.StartElement) (string, error) {
 				return "", err
 			}
 
-			l.Transparency = uint8(255 * (1 - o))
+			if !(o >= 0) {
+				o = 0
+			} else if o > 1 {
+				o = 1
+			}
+
+			l.Transparency = 255 - uint8(math.Round(255*o))
 		case "visibility":
 			l.Invisible = a.Value == "hidden"
 		case "composite-op":
-- 
2.43.0


From 98f3446402d7471dfd09d4e9cd097bfb07648ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:20 +0000
Subject: [PATCH 18/72] fix: scale the whole picture into the ORA thumbnail

The thumbnail showed pixels from the diagonal of its top left corner, and had no
height (which PNG cannot store) when the image is very elongated.
---
 ora/thumbnail.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/ora/thumbnail.go b/ora/thumbnail.go
index cf12819..a73d9e0 100644
--- a/ora/thumbnail.go
+++ b/ora/thumbnail.go
@@ -12,14 +12,22 @@ type thumbnail struct {
 
 func (t thumbnail) Bounds() image.Rectangle {
 	b := t.Image.Bounds()
-	b.Min.X = int(float64(b.Min.X) / t.scale)
-	b.Min.Y = int(float64(b.Min.Y) / t.scale)
-	b.Max.X = int(float64(b.Max.X) / t.scale)
-	b.Max.Y = int(float64(b.Max.Y) / t.scale)
+	w := int(float64(b.Dx()) / t.scale)
+	h := int(float64(b.Dy()) / t.scale)
 
-	return b
+	if w < 1 {
+		w = 1
+	}
+
+	if h < 1 {
+		h = 1
+	}
+
+	return image.Rect(0, 0, w, h)
 }
 
 func (t thumbnail) At(x, y int) color.Color {
-	return t.Image.At(int(float64(x)/t.scale), int(float64(x)/t.scale))
+	min := t.Image.Bounds().Min
+
+	return t.Image.At(min.X+int(float64(x)*t.scale), min.Y+int(float64(y)*t.scale))
 }
-- 
2.43.0


From fb79732d566119a2b91904975d85b2e9870c78a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:20 +0000
Subject: [PATCH 19/72] fix: encode plain images and single layers to ORA
 within a stack

They were written without the root stack, and so could not be decoded, and
without the name, position and mode of the layer.
---
 ora/encode.go | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index f6f0c5a..002c6d7 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -15,6 +15,15 @@ const mimetypeStr = "image/openraster"
 
 // Encode encodes the given image as an ORA file to the given Writer.
 func Encode(w io.Writer, m image.Image) error {
+	switch im := m.(type) {
+	case *limage.Image:
+		m = *im
+	case limage.Layer:
+		m = limage.Image{im}
+	case *limage.Layer:
+		m = limage.Image{*im}
+	}
+
 	lim := toLayer(m)
 	b := m.Bounds()
 	lim.LayerBounds.Max.X = b.Dx()
@@ -69,20 +78,19 @@ func Encode(w io.Writer, m image.Image) error {
 }
 
 func toLayer(m image.Image) limage.Layer {
-	switch im := m.(type) {
-	case limage.Layer:
-		return limage.Layer{
-			Image: im.Image,
-		}
-	case *limage.Layer:
-		return limage.Layer{
-			Image: im.Image,
-		}
-	default:
-		return limage.Layer{
-			Image: m,
+	lim, ok := m.(limage.Image)
+	if !ok {
+		lim = limage.Image{
+			{
+				LayerBounds: m.Bounds(),
+				Image:       m,
+			},
 		}
 	}
+
+	return limage.Layer{
+		Image: lim,
+	}
 }
 
 func writeImage(e *xml.Encoder, zw *zip.Writer, m image.Image, lim limage.Layer) error {
-- 
2.43.0


From 26ea21bf844b1e33d1d9eec44ffe66ff25073683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:20 +0000
Subject: [PATCH 20/72] fix: place the layers of an ORA image relative to its
 bounds

The canvas is as large as the bounds of the image, so that an image with bounds
that do not start at the origin was moved partly off its canvas.
---
 ora/encode.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ora/encode.go b/ora/encode.go
index 002c6d7..776a219 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -88,8 +88,16 @@ func toLayer(m image.Image) limage.Layer {
 		}
 	}
 
+	min := m.Bounds().Min
+	layers := make(limage.Image, len(lim))
+
+	for n, l := range lim {
+		l.LayerBounds = l.LayerBounds.Sub(min)
+		layers[n] = l
+	}
+
 	return limage.Layer{
-		Image: lim,
+		Image: layers,
 	}
 }
 
-- 
2.43.0


From abdbfe10661fed3feb33a8eaa5b468eb976c1d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:21 +0000
Subject: [PATCH 21/72] fix: write negative layer offsets to ORA files

---
 ora/encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index 776a219..9cdbe6d 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -188,14 +188,14 @@ func writeStack(e *xml.Encoder, lim limage.Layer, layerNum int) (int, error) {
 		})
 	}
 
-	if b.X > 0 {
+	if b.X != 0 {
 		attrs = append(attrs, xml.Attr{
 			Name:  xml.Name{Local: "x"},
 			Value: strconv.Itoa(b.X),
 		})
 	}
 
-	if b.Y > 0 {
+	if b.Y != 0 {
 		attrs = append(attrs, xml.Attr{
 			Name:  xml.Name{Local: "y"},
 			Value: strconv.Itoa(b.Y),
-- 
2.43.0


From 43f82fe008e31cdf5241e752c3309a198c6f831d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:21 +0000
Subject: [PATCH 22/72] fix: place ORA layers relative to their group and clip
 them in place

The offsets within a group are written relative to the group, but were read as
if relative to the canvas, the group was placed by the bounds of its layers, and
layers that extend beyond the left or top of the canvas were moved by clipping
them.
---
 ora/stack.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/ora/stack.go b/ora/stack.go
index 324794c..163da04 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -94,9 +94,31 @@ func (d decoder) readLayer(s xml.StartElement, offset image.Point) (limage.Layer
 		}
 	}
 
-	l.LayerBounds = l.Image.Bounds().Add(l.LayerBounds.Min).Intersect(image.Rectangle{Max: d.limits.Add(offset)}).Sub(offset)
+	bounds := l.Image.Bounds()
 
-	return l, nil
+	if i, ok := l.Image.(limage.Image); ok {
+		// layers are positioned from the origin of the group, which can only
+		// be moved together with them.
+		var min image.Point
+
+		if bounds.Min.X < 0 {
+			min.X = bounds.Min.X
+		}
+
+		if bounds.Min.Y < 0 {
+			min.Y = bounds.Min.Y
+		}
+
+		for n := range i {
+			i[n].LayerBounds = i[n].LayerBounds.Sub(min)
+		}
+
+		bounds.Min = min
+	}
+
+	l.LayerBounds = bounds.Add(l.LayerBounds.Min)
+
+	return l.SubImageLayer(image.Rectangle{Max: d.limits}.Sub(offset)), nil
 }
 
 func processLayerAttrs(l *limage.Layer, s xml.StartElement) (string, error) {
-- 
2.43.0


From e6f320d63fd6c0717345db4b1b1ffa1c60e870b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:21 +0000
Subject: [PATCH 23/72] fix: report the failure to write the end of an ORA file

---
 ora/encode.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index 9cdbe6d..6de688b 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -30,7 +30,6 @@ func Encode(w io.Writer, m image.Image) error {
 	lim.LayerBounds.Max.Y = b.Dy()
 
 	zw := zip.NewWriter(w)
-	defer zw.Close()
 
 	fw, err := zw.CreateHeader(&zip.FileHeader{
 		Name:   "mimetype",
@@ -74,7 +73,11 @@ func Encode(w io.Writer, m image.Image) error {
 		return err
 	}
 
-	return writeImage(e, zw, m, lim)
+	if err = writeImage(e, zw, m, lim); err != nil {
+		return err
+	}
+
+	return zw.Close()
 }
 
 func toLayer(m image.Image) limage.Layer {
-- 
2.43.0


From 3caba09753af5b6a58e635e126499e9ba1fbcaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:21 +0000
Subject: [PATCH 24/72] fix: verify the checksums of the stack and the layers
 of ORA files

A zip entry is only verified when it is read to its end.
---
 ora/decode.go | 13 ++++++++++++-
 ora/stack.go  |  9 +++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/ora/decode.go b/ora/decode.go
index 0d2c16f..f908fd6 100644
--- a/ora/decode.go
+++ b/ora/decode.go
@@ -177,7 +177,18 @@ func Decode(zr *zip.Reader) (limage.Image, error) {
 		}
 	}
 
-	return d.readStack(image.Point{})
+	i, err := d.readStack(image.Point{})
+	if err != nil {
+		return nil, err
+	}
+
+	for { // the rest must be well-formed, and the checksum is verified at its end.
+		if _, err := d.x.Token(); errors.Is(err, io.EOF) {
+			return i, nil
+		} else if err != nil {
+			return nil, err
+		}
+	}
 }
 
 // Errors.
diff --git a/ora/stack.go b/ora/stack.go
index 163da04..90f3050 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -4,6 +4,7 @@ import (
 	"encoding/xml"
 	"errors"
 	"image"
+	"io"
 	"math"
 	"strconv"
 
@@ -75,12 +76,16 @@ func (d decoder) readLayer(s xml.StartElement, offset image.Point) (limage.Layer
 				}
 
 				l.Image, _, err = image.Decode(fr)
-				if err != nil {
-					return l, err
+				if err == nil { // the checksum is verified at the end.
+					_, err = io.Copy(io.Discard, fr)
 				}
 
 				fr.Close()
 
+				if err != nil {
+					return l, err
+				}
+
 				break
 			}
 		}
-- 
2.43.0


From bc05055a72900e87d5546770e6581f3577781fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:21 +0000
Subject: [PATCH 25/72] fix: refuse endlessly nested stacks in ORA files

A small archive could nest stacks deeply enough to exhaust the memory allowed
for the call stack, which ends the process.
---
 ora/decode.go | 3 +++
 ora/stack.go  | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/ora/decode.go b/ora/decode.go
index f908fd6..bbeba8a 100644
--- a/ora/decode.go
+++ b/ora/decode.go
@@ -16,8 +16,11 @@ type decoder struct {
 	zr     *zip.Reader
 	x      *xml.Decoder
 	limits image.Point
+	depth  int
 }
 
+const maxDepth = 1000
+
 func (d *decoder) getStack() (stack *zip.File, err error) {
 	err = ErrMissingStack
 
diff --git a/ora/stack.go b/ora/stack.go
index 90f3050..7ca7e2e 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -12,6 +12,10 @@ import (
 )
 
 func (d decoder) readStack(offset image.Point) (limage.Image, error) {
+	if d.depth++; d.depth > maxDepth {
+		return nil, ErrInvalidStack
+	}
+
 	i := make(limage.Image, 0, 32)
 
 Loop:
-- 
2.43.0


From b1a328d8bc7f43e12696ccd29d750452597fe56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:08 +0000
Subject: [PATCH 26/72] fix: refuse ORA files of a negative size

---
 ora/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ora/decode.go b/ora/decode.go
index bbeba8a..8716614 100644
--- a/ora/decode.go
+++ b/ora/decode.go
@@ -92,7 +92,7 @@ func (d *decoder) getDimensions() error {
 					}
 				}
 
-				if !w || !h {
+				if !w || !h || d.limits.X < 0 || d.limits.Y < 0 {
 					return ErrInvalidStack
 				}
 
-- 
2.43.0


From b86a0e776488e9c23742db97e450d6e07a0e80df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:09 +0000
Subject: [PATCH 27/72] fix: ignore attributes of other namespaces in ORA files

---
 ora/decode.go | 4 ++++
 ora/stack.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ora/decode.go b/ora/decode.go
index 8716614..6eba5b0 100644
--- a/ora/decode.go
+++ b/ora/decode.go
@@ -78,6 +78,10 @@ func (d *decoder) getDimensions() error {
 				var w, h bool
 
 				for _, attr := range se.Attr {
+					if attr.Name.Space != "" { // not of OpenRaster
+						continue
+					}
+
 					switch attr.Name.Local {
 					case "w":
 						d.limits.X, err = strconv.Atoi(attr.Value)
diff --git a/ora/stack.go b/ora/stack.go
index 7ca7e2e..fd584a1 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -134,6 +134,10 @@ func processLayerAttrs(l *limage.Layer, s xml.StartElement) (string, error) {
 	var source string
 
 	for _, a := range s.Attr {
+		if a.Name.Space != "" { // not of OpenRaster
+			continue
+		}
+
 		switch a.Name.Local {
 		case "name":
 			l.Name = a.Value
-- 
2.43.0


From 796322127f2d08a46e270a4c3412f47a1b4d8ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:05 +0000
Subject: [PATCH 28/72] fix: read XCF files of more than 16 MiB

---
 xcf/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcf/reader.go b/xcf/reader.go
index 7926f6f..3d1a281 100644
--- a/xcf/reader.go
+++ b/xcf/reader.go
@@ -3,6 +3,7 @@ package xcf
 import (
 	"errors"
 	"io"
+	"math"
 	"unicode/utf8"
 
 	"vimagination.zapto.org/byteio"
@@ -15,7 +16,7 @@ type reader struct {
 
 func newReader(r io.ReaderAt) reader {
 	nr := reader{
-		rs: io.NewSectionReader(r, 0, maxString),
+		rs: io.NewSectionReader(r, 0, math.MaxInt64),
 	}
 
 	nr.StickyBigEndianReader = &byteio.StickyBigEndianReader{Reader: nr.rs}
-- 
2.43.0


From a38716090a3647fe2ca31dfb6df05754119c3fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:06 +0000
Subject: [PATCH 29/72] fix: take the end of the file reported with the last
 bytes of an XCF file

---
 xcf/reader.go | 30 +++++++++++++++++++++++++++---
 xcf/skip.go   | 10 ++++++++--
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/xcf/reader.go b/xcf/reader.go
index 3d1a281..4f8cdba 100644
--- a/xcf/reader.go
+++ b/xcf/reader.go
@@ -11,12 +11,30 @@ import (
 
 type reader struct {
 	*byteio.StickyBigEndianReader
-	rs *io.SectionReader
+	rs *readerAtReader
+}
+
+// readerAtReader reads from a position in an io.ReaderAt, either all that is
+// asked for or failing.
+type readerAtReader struct {
+	io.ReaderAt
+	pos int64
+}
+
+func (r *readerAtReader) Read(p []byte) (int, error) {
+	n, err := r.ReadAt(p, r.pos)
+	r.pos += int64(n)
+
+	if n == len(p) && errors.Is(err, io.EOF) { // the end of the file, not before
+		err = nil
+	}
+
+	return n, err
 }
 
 func newReader(r io.ReaderAt) reader {
 	nr := reader{
-		rs: io.NewSectionReader(r, 0, math.MaxInt64),
+		rs: &readerAtReader{ReaderAt: r},
 	}
 
 	nr.StickyBigEndianReader = &byteio.StickyBigEndianReader{Reader: nr.rs}
@@ -54,7 +72,13 @@ func (r *reader) ReadString() string {
 }
 
 func (r *reader) Goto(n uint64) {
-	r.rs.Seek(int64(n), io.SeekStart)
+	if n > math.MaxInt64 {
+		r.SetError(ErrInvalidSeek)
+
+		return
+	}
+
+	r.rs.pos = int64(n)
 }
 
 func (r *reader) SetError(err error) {
diff --git a/xcf/skip.go b/xcf/skip.go
index 078fca3..37ea957 100644
--- a/xcf/skip.go
+++ b/xcf/skip.go
@@ -1,9 +1,15 @@
 package xcf
 
-import "io"
+import "math"
 
 func (r *reader) Skip(n uint32) {
-	r.rs.Seek(int64(n), io.SeekCurrent)
+	if r.rs.pos > math.MaxInt64-int64(n) {
+		r.SetError(ErrInvalidSeek)
+
+		return
+	}
+
+	r.rs.pos += int64(n)
 }
 
 func (r *reader) SkipBoolProperty() {
-- 
2.43.0


From 1ad72419706d7d804e8e246a03c9b39238f0ccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:52 +0000
Subject: [PATCH 30/72] fix: give the layer of a plain image its size in XCF
 files

---
 xcf/encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcf/encoder.go b/xcf/encoder.go
index 2a3e9b2..69bf348 100644
--- a/xcf/encoder.go
+++ b/xcf/encoder.go
@@ -105,7 +105,7 @@ func Encode(w io.WriterAt, im image.Image) error {
 		pw := e.ReservePointerList(1)
 
 		e.WriteUint32(0) // no channels
-		e.WriteLayer(limage.Layer{Image: im}, 0, 0, []uint32{}, pw)
+		e.WriteLayer(limage.Layer{Image: im, LayerBounds: image.Rect(0, 0, b.Dx(), b.Dy())}, 0, 0, []uint32{}, pw)
 	}
 
 	return e.Err
-- 
2.43.0


From 128100fb001049e08a075cb5ddcd92fbe5e901f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:52 +0000
Subject: [PATCH 31/72] fix: place the layers of an XCF image relative to its
 bounds

---
 xcf/encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcf/encoder.go b/xcf/encoder.go
index 69bf348..8f46059 100644
--- a/xcf/encoder.go
+++ b/xcf/encoder.go
@@ -100,7 +100,7 @@ func Encode(w io.WriterAt, im image.Image) error {
 		pw := e.ReservePointerList(layerCount(im))
 
 		e.WriteUint32(0) // no channels
-		e.WriteLayers(im, 0, 0, make([]uint32, 0, 32), pw)
+		e.WriteLayers(im, int32(-b.Min.X), int32(-b.Min.Y), make([]uint32, 0, 32), pw)
 	default:
 		pw := e.ReservePointerList(1)
 
-- 
2.43.0


From bc7b59bbdd0ae0afc08a52c63ec0b1b4fd659b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:53 +0000
Subject: [PATCH 32/72] fix: write the groups and texts within masks to XCF
 files

---
 xcf/encoder.go      |  9 +++----
 xcf/layer_encode.go | 57 ++++++++++++++++++++++++---------------------
 2 files changed, 34 insertions(+), 32 deletions(-)

diff --git a/xcf/encoder.go b/xcf/encoder.go
index 8f46059..c7998d9 100644
--- a/xcf/encoder.go
+++ b/xcf/encoder.go
@@ -115,12 +115,9 @@ func layerCount(g limage.Image) uint32 {
 	count := uint32(len(g))
 
 	for _, l := range g {
-		switch g := l.Image.(type) {
-		case limage.Image:
-			count += layerCount(g)
-		case *limage.Image:
-			count += layerCount(*g)
-		}
+		img, _ := splitMask(l.Image)
+		sub, _ := asGroup(img)
+		count += layerCount(sub)
 	}
 
 	return count
diff --git a/xcf/layer_encode.go b/xcf/layer_encode.go
index 22c49e2..cee6ddb 100644
--- a/xcf/layer_encode.go
+++ b/xcf/layer_encode.go
@@ -17,44 +17,49 @@ func (e *encoder) WriteLayers(layers limage.Image, offsetX, offsetY int32, group
 func (e *encoder) WriteLayer(im limage.Layer, offsetX, offsetY int32, groups []uint32, pw *pointerWriter) {
 	pw.WritePointer(uint32(e.pos))
 
-	var (
-		mask  *image.Gray
-		img   image.Image
-		text  limage.TextData
-		group limage.Image
-	)
-
-	if mim, ok := im.Image.(limage.MaskedImage); ok {
-		mask = mim.Mask
-		img = mim.Image
-	} else if mim, ok := im.Image.(*limage.MaskedImage); ok {
-		mask = mim.Mask
-		img = mim.Image
-	} else {
-		img = im.Image
-	}
+	var text limage.TextData
 
-	switch i := im.Image.(type) {
+	img, mask := splitMask(im.Image)
+	group, isGroup := asGroup(img)
+
+	switch i := img.(type) {
 	case limage.Text:
 		text = i.TextData
 	case *limage.Text:
 		text = i.TextData
-	case limage.Image:
-		group = i
-	case *limage.Image:
-		group = *i
 	}
 
-	writeProperties(e, im, offsetX, offsetY, groups, group, text)
+	writeProperties(e, im, offsetX, offsetY, groups, isGroup, text)
 	e.WriteUint32(0)
 	writeLayer(e, img, mask)
 
-	if group != nil {
-		e.WriteLayers(group, offsetX, offsetY, groups, pw)
+	e.WriteLayers(group, offsetX, offsetY, groups, pw)
+}
+
+// splitMask separates the image of a layer from its mask, if it has one.
+func splitMask(im image.Image) (image.Image, *image.Gray) {
+	switch im := im.(type) {
+	case limage.MaskedImage:
+		return im.Image, im.Mask
+	case *limage.MaskedImage:
+		return im.Image, im.Mask
 	}
+
+	return im, nil
+}
+
+func asGroup(im image.Image) (limage.Image, bool) {
+	switch im := im.(type) {
+	case limage.Image:
+		return im, true
+	case *limage.Image:
+		return *im, true
+	}
+
+	return nil, false
 }
 
-func writeProperties(e *encoder, im limage.Layer, offsetX, offsetY int32, groups []uint32, group limage.Image, text limage.TextData) {
+func writeProperties(e *encoder, im limage.Layer, offsetX, offsetY int32, groups []uint32, group bool, text limage.TextData) {
 	b := im.Bounds()
 	dx, dy := uint32(b.Dx()), uint32(b.Dy())
 
@@ -94,7 +99,7 @@ func writeProperties(e *encoder, im limage.Layer, offsetX, offsetY int32, groups
 		e.WriteText(text, dx, dy)
 	}
 
-	if group != nil {
+	if group {
 		e.WriteUint32(propGroupItem)
 		e.WriteUint32(0)
 	}
-- 
2.43.0


From 1a1a4d15a127fe9b425ef1509088241c5c6a0e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:53 +0000
Subject: [PATCH 33/72] fix: write the pictures of XCF layers in the size of
 the layer

---
 xcf/channel.go      |  6 ++----
 xcf/encoder.go      |  2 +-
 xcf/image_encode.go |  4 +---
 xcf/layer_encode.go | 13 +++++++------
 4 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/xcf/channel.go b/xcf/channel.go
index 56e79c6..38c84e0 100644
--- a/xcf/channel.go
+++ b/xcf/channel.go
@@ -50,9 +50,7 @@ func (d *decoder) skipProperties() {
 	}
 }
 
-func (e *encoder) WriteChannel(c *image.Gray) {
-	b := c.Bounds()
-
+func (e *encoder) WriteChannel(c *image.Gray, b image.Rectangle) {
 	e.WriteUint32(uint32(b.Dx()))
 	e.WriteUint32(uint32(b.Dy()))
 	e.WriteString("")
@@ -61,5 +59,5 @@ func (e *encoder) WriteChannel(c *image.Gray) {
 	e.WriteUint32(0)
 
 	e.WriteUint32(uint32(e.pos) + 4) // hptr
-	e.WriteImage(c, (*encoder).grayToBuf, 1)
+	e.WriteImage(c, b, (*encoder).grayToBuf, 1)
 }
diff --git a/xcf/encoder.go b/xcf/encoder.go
index c7998d9..3a214d0 100644
--- a/xcf/encoder.go
+++ b/xcf/encoder.go
@@ -105,7 +105,7 @@ func Encode(w io.WriterAt, im image.Image) error {
 		pw := e.ReservePointerList(1)
 
 		e.WriteUint32(0) // no channels
-		e.WriteLayer(limage.Layer{Image: im, LayerBounds: image.Rect(0, 0, b.Dx(), b.Dy())}, 0, 0, []uint32{}, pw)
+		e.WriteLayer(limage.Layer{Image: im, LayerBounds: image.Rect(0, 0, b.Dx(), b.Dy())}, b.Min, 0, 0, []uint32{}, pw)
 	}
 
 	return e.Err
diff --git a/xcf/image_encode.go b/xcf/image_encode.go
index 0d58042..2357c60 100644
--- a/xcf/image_encode.go
+++ b/xcf/image_encode.go
@@ -7,9 +7,7 @@ import (
 	"vimagination.zapto.org/limage/lcolor"
 )
 
-func (e *encoder) WriteImage(im image.Image, colourFunc colourBufFunc, colourChannels uint8) {
-	bounds := im.Bounds()
-
+func (e *encoder) WriteImage(im image.Image, bounds image.Rectangle, colourFunc colourBufFunc, colourChannels uint8) {
 	dx := int64(bounds.Dx())
 	dy := int64(bounds.Dy())
 
diff --git a/xcf/layer_encode.go b/xcf/layer_encode.go
index cee6ddb..2f372f2 100644
--- a/xcf/layer_encode.go
+++ b/xcf/layer_encode.go
@@ -10,17 +10,18 @@ func (e *encoder) WriteLayers(layers limage.Image, offsetX, offsetY int32, group
 	for n, layer := range layers {
 		nGroups := append(groups, uint32(n))
 
-		e.WriteLayer(layer, offsetX+int32(layer.LayerBounds.Min.X), offsetY+int32(layer.LayerBounds.Min.Y), nGroups, pw)
+		e.WriteLayer(layer, image.Point{}, offsetX+int32(layer.LayerBounds.Min.X), offsetY+int32(layer.LayerBounds.Min.Y), nGroups, pw)
 	}
 }
 
-func (e *encoder) WriteLayer(im limage.Layer, offsetX, offsetY int32, groups []uint32, pw *pointerWriter) {
+func (e *encoder) WriteLayer(im limage.Layer, origin image.Point, offsetX, offsetY int32, groups []uint32, pw *pointerWriter) {
 	pw.WritePointer(uint32(e.pos))
 
 	var text limage.TextData
 
 	img, mask := splitMask(im.Image)
 	group, isGroup := asGroup(img)
+	bounds := image.Rectangle{Max: im.LayerBounds.Size()}.Add(origin)
 
 	switch i := img.(type) {
 	case limage.Text:
@@ -31,7 +32,7 @@ func (e *encoder) WriteLayer(im limage.Layer, offsetX, offsetY int32, groups []u
 
 	writeProperties(e, im, offsetX, offsetY, groups, isGroup, text)
 	e.WriteUint32(0)
-	writeLayer(e, img, mask)
+	writeLayer(e, img, mask, bounds)
 
 	e.WriteLayers(group, offsetX, offsetY, groups, pw)
 }
@@ -191,16 +192,16 @@ func modeID(mode limage.Composite) uint32 {
 	}
 }
 
-func writeLayer(e *encoder, img image.Image, mask *image.Gray) {
+func writeLayer(e *encoder, img image.Image, mask *image.Gray, bounds image.Rectangle) {
 	ptrs := e.ReservePointers(2)
 
 	ptrs.WritePointer(uint32(e.pos))
 
-	e.WriteImage(img, e.colourFunc, e.colourChannels)
+	e.WriteImage(img, bounds, e.colourFunc, e.colourChannels)
 
 	if mask != nil {
 		ptrs.WritePointer(uint32(e.pos))
-		e.WriteChannel(mask)
+		e.WriteChannel(mask, bounds)
 	} else {
 		ptrs.WritePointer(0)
 	}
-- 
2.43.0


From ecacea64dc06b859a3d1edc649d3ecce8ab8487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:54 +0000
Subject: [PATCH 34/72] fix: write luminance, and not colour erase for
 luminosity, to XCF files

---
 xcf/layer_encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcf/layer_encode.go b/xcf/layer_encode.go
index 2f372f2..af9ff67 100644
--- a/xcf/layer_encode.go
+++ b/xcf/layer_encode.go
@@ -159,8 +159,6 @@ func modeID(mode limage.Composite) uint32 {
 		return 20
 	case limage.CompositeGrainMerge:
 		return 21
-	case limage.CompositeLuminosity:
-		return 22
 	case limage.CompositeColorErase:
 		return 22
 	case limage.CompositeChroma:
@@ -179,6 +177,8 @@ func modeID(mode limage.Composite) uint32 {
 		return 52
 	case limage.CompositeLinearBurn:
 		return 53
+	case limage.CompositeLuminance:
+		return 56
 	case limage.CompositeErase:
 		return 58
 	case limage.CompositeMerge:
-- 
2.43.0


From f056f1c1ea1337ebddafb5a60e8f06c03fd11054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:54 +0000
Subject: [PATCH 35/72] fix: store the palette entry nearest to the colour in
 XCF files

---
 xcf/image_encode.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/xcf/image_encode.go b/xcf/image_encode.go
index 2357c60..9b7655c 100644
--- a/xcf/image_encode.go
+++ b/xcf/image_encode.go
@@ -84,8 +84,7 @@ func (e *encoder) grayToBuf(c color.Color) {
 }
 
 func (e *encoder) paletteAlphaToBuf(c color.Color) {
-	r, g, b, a := c.RGBA()
-	i := e.colourPalette.Index(lcolor.RGB{R: uint8(r), G: uint8(g), B: uint8(b)})
-	e.colourBuf[0] = uint8(i)
-	e.colourBuf[1] = uint8(a)
+	_, _, _, a := c.RGBA()
+	e.colourBuf[0] = uint8(e.colourPalette.Index(c))
+	e.colourBuf[1] = uint8(a >> 8)
 }
-- 
2.43.0


From 53c8594ce5584e40de2e8e6613ce6c232850ca80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:03 +0000
Subject: [PATCH 36/72] fix: clip XCF layers in place and keep the masks of
 groups

---
 xcf/decoder.go      | 19 +++++++++++++++----
 xcf/layer_decode.go |  2 +-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 7b60fbc..c2f4ead 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -161,13 +161,17 @@ func decodeImage(r io.ReaderAt, decompress bool) (limage.Image, error) {
 		return nil, dr.Err
 	}
 
-	groups, err := makeGroups(layers, bounds)
+	groups, err := makeGroups(layers)
 	if err != nil {
 		return nil, err
 	}
 
 	im := makeImage(groups)
 
+	for n := range im {
+		im[n] = im[n].SubImageLayer(bounds)
+	}
+
 	return im, nil
 }
 
@@ -365,7 +369,7 @@ func readLayers(dr reader, r io.ReaderAt, layerptrs []uint64, baseType uint32, p
 	return layers
 }
 
-func makeGroups(layers []layer, bounds image.Rectangle) (map[string]*groupOffset, error) {
+func makeGroups(layers []layer) (map[string]*groupOffset, error) {
 	var (
 		groups = make(map[string]*groupOffset)
 		n      rune
@@ -401,7 +405,7 @@ func makeGroups(layers []layer, bounds image.Rectangle) (map[string]*groupOffset
 			}
 		}
 
-		l.LayerBounds = l.LayerBounds.Intersect(bounds).Sub(image.Pt(g.OffsetX, g.OffsetY))
+		l.LayerBounds = l.LayerBounds.Sub(image.Pt(g.OffsetX, g.OffsetY))
 		g.Group = append(g.Group, l.Layer)
 	}
 
@@ -421,7 +425,14 @@ func makeImage(groups map[string]*groupOffset) limage.Image {
 		if g.Parent == nil {
 			im = ng
 		} else {
-			(*g.Parent)[g.Offset].Image = ng
+			l := &(*g.Parent)[g.Offset]
+
+			if m, ok := l.Image.(limage.MaskedImage); ok {
+				m.Image = ng
+				l.Image = m
+			} else {
+				l.Image = ng
+			}
 		}
 	}
 
diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index e8d4bcd..3fc3548 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -50,7 +50,7 @@ func (d *decoder) ReadLayer() layer {
 			return l
 		}
 	}
-	if t := parasites.Get(textParasiteName); t != nil {
+	if t := parasites.Get(textParasiteName); t != nil && !l.group {
 		textData, err := parseTextData(t)
 		if err != nil {
 			d.SetError(ErrInvalidLayerType)
-- 
2.43.0


From 695e959d4743950e1da4d536c232aacb34824938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:03 +0000
Subject: [PATCH 37/72] fix: accept the masks of offset layers in XCF files

---
 xcf/layer_decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index 3fc3548..bb91877 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -252,7 +252,7 @@ func (l *layer) readMask(d *decoder) {
 		return
 	}
 
-	if !l.LayerBounds.Eq(m.Mask.Bounds()) {
+	if l.LayerBounds.Size() != m.Mask.Bounds().Size() {
 		d.SetError(ErrInconsistantData)
 
 		return
-- 
2.43.0


From dd54ec4d4989e2d14de8a9e5eae611c75ab3654c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:03 +0000
Subject: [PATCH 38/72] fix: decompress the masks of XCF layers when the pixels
 are deferred

---
 xcf/channel.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xcf/channel.go b/xcf/channel.go
index 38c84e0..cd66799 100644
--- a/xcf/channel.go
+++ b/xcf/channel.go
@@ -19,6 +19,8 @@ func (d *decoder) ReadChannel() *image.Gray {
 
 	d.Goto(hptr)
 
+	d.decompress = true // the mask needs to be an *image.Gray
+
 	if im := d.ReadImage(width, height, 2); im != nil {
 		return im.(*image.Gray) // gray
 	}
-- 
2.43.0


From a3f673ed61d37bfaa4955f20465db26695542e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:04 +0000
Subject: [PATCH 39/72] fix: refuse two groups of the same path in XCF files

---
 xcf/decoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index c2f4ead..4d34585 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -387,6 +387,9 @@ func makeGroups(layers []layer) (map[string]*groupOffset, error) {
 
 		if len(l.itemPath) == 0 {
 			l.itemPath = []rune{n}
+		}
+
+		if len(l.itemPath) == 1 {
 			n++
 		}
 
@@ -396,6 +399,10 @@ func makeGroups(layers []layer) (map[string]*groupOffset, error) {
 		}
 
 		if l.group {
+			if groups[string(l.itemPath)] != nil {
+				return nil, ErrInvalidGroup
+			}
+
 			groups[string(l.itemPath)] = &groupOffset{
 				Group:   make(limage.Image, 0, 32),
 				OffsetX: l.LayerBounds.Min.X,
-- 
2.43.0


From 8d659ad5bb75d58e91ca06583e0f4e6d4cd7c20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:04 +0000
Subject: [PATCH 40/72] fix: skip the precision for the configuration of XCF
 files, and refuse unknown base types

---
 xcf/decoder.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 4d34585..d3bc09a 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -86,7 +86,11 @@ func DecodeConfig(r io.ReaderAt) (image.Config, error) {
 	c.Height = int(dr.ReadUint32())
 	baseType := dr.ReadUint32()
 
-	if mode == 2 {
+	if baseType > baseIndexed {
+		return image.Config{}, ErrInvalidHeader
+	}
+
+	if mode > 0 {
 		dr.ReadUint32()
 	}
 
@@ -138,6 +142,10 @@ func decodeImage(r io.ReaderAt, decompress bool) (limage.Image, error) {
 	bounds := image.Rect(0, 0, width, height)
 	baseType := dr.ReadUint32()
 
+	if baseType > baseIndexed {
+		return nil, ErrInvalidHeader
+	}
+
 	var precision uint32
 
 	if mode > 0 {
-- 
2.43.0


From 85cd1beb847b59ab28289378357e83afa8179f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:33 +0000
Subject: [PATCH 41/72] fix: skip the colour maps of XCF images that are not
 indexed, and refuse those of too many colours

---
 xcf/decoder.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index d3bc09a..121b613 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -254,9 +254,16 @@ PropertyLoop:
 		case propColorMap:
 			if baseType != baseIndexed {
 				dr.Skip(plength) // skip
+
+				continue
+			}
+
+			colours := dr.ReadUint32()
+			if colours > 256 {
+				return nil, 0, ErrInvalidProperties
 			}
 
-			palette = make(lcolor.AlphaPalette, dr.ReadUint32())
+			palette = make(lcolor.AlphaPalette, colours)
 
 			for n := range palette {
 				palette[n] = lcolor.RGB{
-- 
2.43.0


From cf4fb2999cb0b9ceee5df38bbc3693ca470f43bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:33 +0000
Subject: [PATCH 42/72] fix: skip guides, sample points, paths and vectors of
 XCF files in their sizes

---
 xcf/decoder.go      |  9 +++------
 xcf/layer_decode.go |  2 +-
 xcf/skip.go         | 28 ++++++++++++++++------------
 3 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 121b613..1efe8f5 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -285,7 +285,7 @@ PropertyLoop:
 
 			for n := uint32(0); n < ng; n++ {
 				dr.SkipUint32()
-				dr.SkipBoolProperty()
+				dr.SkipByte() // orientation
 			}
 		case propPaths:
 			dr.SkipPaths()
@@ -293,14 +293,11 @@ PropertyLoop:
 			dr.SkipFloat32() // x
 			dr.SkipFloat32() // y
 		case propSamplePoints:
-			if plength&1 == 1 {
+			if plength%12 != 0 { // x + y + pick mode
 				return nil, 0, ErrInvalidSampleLength
 			}
 
-			for i := uint32(0); i < plength>>1; i++ {
-				dr.SkipUint32()
-				dr.SkipUint32()
-			}
+			dr.Skip(plength)
 		case propUnit:
 			if dr.ReadUint32() > 4 {
 				return nil, 0, ErrInvalidUnit
diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index bb91877..579fd8f 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -114,7 +114,7 @@ PropertyLoop:
 		case propEditMask:
 			d.SkipBoolProperty()
 		case propFloatingSelection:
-			d.SkipUint32()
+			d.Skip(plength) // a pointer
 		case propGroupItem:
 			l.group = true
 		case propItemPath:
diff --git a/xcf/skip.go b/xcf/skip.go
index 37ea957..12848e4 100644
--- a/xcf/skip.go
+++ b/xcf/skip.go
@@ -3,7 +3,11 @@ package xcf
 import "math"
 
 func (r *reader) Skip(n uint32) {
-	if r.rs.pos > math.MaxInt64-int64(n) {
+	r.skip(uint64(n))
+}
+
+func (r *reader) skip(n uint64) {
+	if n > uint64(math.MaxInt64-r.rs.pos) {
 		r.SetError(ErrInvalidSeek)
 
 		return
@@ -47,7 +51,7 @@ func (r *reader) SkipPaths() {
 
 	n := r.ReadUint32()
 
-	for i := uint32(0); i < n; i++ {
+	for i := uint32(0); i < n && r.Err == nil; i++ {
 		r.SkipString()       // name
 		r.SkipBoolProperty() // linked
 		r.SkipByte()         // state
@@ -68,7 +72,7 @@ func (r *reader) SkipPaths() {
 			return
 		}
 
-		r.Skip(12 * np) // (control[4] + x[4] + y[4]) * np
+		r.skip(12 * uint64(np)) // (control[4] + x[4] + y[4]) * np
 	}
 }
 
@@ -83,7 +87,7 @@ func (r *reader) SkipVectors() {
 
 	n := r.ReadUint32()
 
-	for i := uint32(0); i < n; i++ {
+	for i := uint32(0); i < n && r.Err == nil; i++ {
 		r.SkipString()       // name
 		r.SkipUint32()       // tattoo
 		r.SkipBoolProperty() // visible
@@ -92,11 +96,11 @@ func (r *reader) SkipVectors() {
 		m := r.ReadUint32()
 		k := r.ReadUint32()
 
-		for j := uint32(0); j < m; j++ {
+		for j := uint32(0); j < m && r.Err == nil; j++ {
 			r.SkipParasite()
 		}
 
-		for j := uint32(0); j < k; j++ {
+		for j := uint32(0); j < k && r.Err == nil; j++ {
 			if r.ReadUint32() != 1 { // stroke type
 				r.SetError(ErrUnknownStrokeType)
 
@@ -111,13 +115,13 @@ func (r *reader) SkipVectors() {
 			switch nf {
 			case 2, 3, 4, 5, 6:
 				/*
-					2: Bool + Float32 + Float32 = 5
-					3: +Float32 = 9
-					4: +Float32 = 13
-					5: +Float32 = 17
-					6: +Float32 = 21
+					2: Uint32 + Float32 + Float32 = 12
+					3: +Float32 = 16
+					4: +Float32 = 20
+					5: +Float32 = 24
+					6: +Float32 = 28
 				*/
-				r.Skip(np * (nf*4 + 1))
+				r.skip(uint64(np) * uint64(nf*4+4))
 			default:
 				r.SetError(ErrInvalidFloatsNumber)
 
-- 
2.43.0


From 08753ef82b042ee726ba0b2b6cf4aa21801f450a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:34 +0000
Subject: [PATCH 43/72] fix: round the opacity of XCF layers to the nearest
 level

---
 xcf/layer_decode.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index 579fd8f..33c84cb 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -143,7 +143,14 @@ PropertyLoop:
 		case propTextLayerFlags:
 			d.SkipUint32()
 		case propFloatOpacity:
-			l.Transparency = 255 - uint8(d.ReadFloat32()*255)
+			o := d.ReadFloat32()
+			if !(o >= 0 && o <= 1) {
+				d.SetError(ErrInvalidOpacity)
+
+				o = 0
+			}
+
+			l.Transparency = 255 - uint8(o*255+0.5)
 		default:
 			d.Skip(plength)
 		}
-- 
2.43.0


From 96e8ff401a8953228757e668b131143be687896f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:34 +0000
Subject: [PATCH 44/72] fix: read uncompressed XCF tiles pixel by pixel

---
 xcf/image_decode.go | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index 9bb1b4c..f297e24 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -3,7 +3,6 @@ package xcf
 import (
 	"image"
 	"image/color"
-	"io"
 	"math"
 
 	"vimagination.zapto.org/limage"
@@ -142,16 +141,14 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 		imReader = palettedAlphaReader{in}
 	}
 
-	var cr io.Reader
-
-	if d.compression == 0 { // no compression
-		cr = &d.reader
-	} else { // rle
-		cr = &rle{Reader: d.reader.StickyBigEndianReader}
-	}
-
+	cr := &rle{Reader: d.reader.StickyBigEndianReader}
 	pixel := make([]byte, bpp)
 	channels := make([][]byte, bpp)
+	stride := uint32(1)
+
+	if d.compression == 0 { // no compression, the bytes of a pixel are together
+		stride = bpp
+	}
 
 	for y := uint32(0); y < height; y += 64 {
 		for x := uint32(0); x < width; x += 64 {
@@ -169,19 +166,29 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 			}
 
 			n := w * h
-			_, err := cr.Read(pixBuffer[:n*bpp])
 
-			d.SetError(err)
+			if d.compression == 0 {
+				_, err := d.Read(pixBuffer[:n*bpp])
 
-			for i := uint32(0); i < bpp; i++ {
-				channels[i] = pixBuffer[n*i : n*(i+1)]
+				d.SetError(err)
+
+				for i := uint32(0); i < bpp; i++ {
+					channels[i] = pixBuffer[i : n*bpp]
+				}
+			} else { // rle
+				_, err := cr.Read(pixBuffer[:n*bpp])
+
+				d.SetError(err)
+
+				for i := uint32(0); i < bpp; i++ {
+					channels[i] = pixBuffer[n*i : n*(i+1)]
+				}
 			}
 
 			for j := uint32(0); j < h; j++ {
 				for i := uint32(0); i < w; i++ {
 					for k := uint32(0); k < bpp; k++ {
-						pixel[k] = channels[k][0]
-						channels[k] = channels[k][1:]
+						pixel[k] = channels[k][(j*w+i)*stride]
 					}
 
 					imReader.ReadColour(int(x+i), int(y+j), pixel)
-- 
2.43.0


From a8ae367595877b0ba8840bf0cd1e66ac26033642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:35 +0000
Subject: [PATCH 45/72] fix: refuse XCF tiles whose runs span channels, as when
 the pixels are deferred

---
 xcf/image_decode.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index f297e24..0b75a29 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -176,12 +176,12 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 					channels[i] = pixBuffer[i : n*bpp]
 				}
 			} else { // rle
-				_, err := cr.Read(pixBuffer[:n*bpp])
-
-				d.SetError(err)
-
 				for i := uint32(0); i < bpp; i++ {
 					channels[i] = pixBuffer[n*i : n*(i+1)]
+
+					_, err := cr.Read(channels[i]) // no run may span channels
+
+					d.SetError(err)
 				}
 			}
 
-- 
2.43.0


From 4b113f021f505048ff1819625f147c50fc8c7b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:10 +0000
Subject: [PATCH 46/72] fix: limit the empty runs in XCF tiles, and do not keep
 them

---
 xcf/rle.go | 63 ++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 18 deletions(-)

diff --git a/xcf/rle.go b/xcf/rle.go
index 8e5ee55..6bb0746 100644
--- a/xcf/rle.go
+++ b/xcf/rle.go
@@ -13,8 +13,11 @@ type rle struct {
 	repeatByte bool
 	data       uint8
 	count      uint16
+	empty      int
 }
 
+const maxEmptyRuns = 64 // in a row
+
 func (r *rle) Read(p []byte) (int, error) {
 	var n int
 
@@ -49,6 +52,16 @@ func (r *rle) Read(p []byte) (int, error) {
 
 				return n, r.Reader.Err
 			}
+
+			if r.count == 0 {
+				if r.empty++; r.empty > maxEmptyRuns {
+					return n, ErrInvalidRLE
+				}
+
+				continue
+			}
+
+			r.empty = 0
 		}
 
 		c := int(r.count)
@@ -154,44 +167,58 @@ func (w *writer) WriteRLEData(data []byte, run int, last byte) {
 
 func (d *decoder) readRLE(count int, buf *memio.Buffer) error {
 	bw := byteio.BigEndianWriter{Writer: buf}
+	empty := 0
 
-	for count > 0 {
+	for count > 0 && d.Err == nil {
 		c := d.reader.ReadUint8()
 
-		bw.WriteUint8(c)
-
-		if c < 127 {
-			count -= int(c) + 1
-
-			bw.WriteUint8(d.ReadUint8())
-		} else if c == 127 {
+		if c == 127 || c == 128 {
 			p := d.ReadUint16()
 
-			bw.WriteUint16(p)
+			if p == 0 { // not kept
+				if c == 127 {
+					d.ReadUint8()
+				}
 
-			count -= int(p)
+				if empty++; empty > maxEmptyRuns {
+					return ErrInvalidRLE
+				}
 
-			bw.WriteUint8(d.ReadUint8())
-		} else if c == 128 {
-			p := d.ReadUint16()
+				continue
+			}
 
+			bw.WriteUint8(c)
 			bw.WriteUint16(p)
 
 			count -= int(p)
 
-			io.CopyN(buf, d, int64(p))
+			if c == 127 {
+				bw.WriteUint8(d.ReadUint8())
+			} else {
+				io.CopyN(buf, d, int64(p))
+			}
 		} else {
-			count -= 256 - int(c)
+			bw.WriteUint8(c)
 
-			io.CopyN(buf, d, 256-int64(c))
+			if c < 127 {
+				count -= int(c) + 1
+
+				bw.WriteUint8(d.ReadUint8())
+			} else {
+				count -= 256 - int(c)
+
+				io.CopyN(buf, d, 256-int64(c))
+			}
 		}
+
+		empty = 0
 	}
 
-	if count < 0 {
+	if d.Err == nil && count < 0 {
 		return ErrInvalidRLE
 	}
 
-	return nil
+	return d.Err
 }
 
 // Errors.
-- 
2.43.0


From f3d0f09ad45c57f1b222a72269ee695758d545d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:10 +0000
Subject: [PATCH 47/72] fix: do not allocate XCF images before their tiles are
 found

---
 xcf/image_decode.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index 0b75a29..7aae2b3 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -3,7 +3,6 @@ package xcf
 import (
 	"image"
 	"image/color"
-	"math"
 
 	"vimagination.zapto.org/limage"
 	"vimagination.zapto.org/limage/lcolor"
@@ -35,8 +34,11 @@ func (d *decoder) ReadImage(width, height, mode uint32) image.Image {
 
 	tiles := d.readTiles(width, height)
 
-	if d.ReadUint32() != 0 {
+	if d.readLayerPointer() != 0 {
 		d.SetError(ErrInconsistantData)
+	}
+
+	if d.Err != nil {
 		return nil
 	}
 
@@ -89,16 +91,11 @@ func (d *decoder) readLayerPointer() uint64 {
 }
 
 func (d *decoder) readTiles(width, height uint32) []uint64 {
-	tiles := make([]uint64, int(math.Ceil(float64(width)/64)*math.Ceil(float64(height)/64)))
+	count := (uint64(width) + 63) / 64 * ((uint64(height) + 63) / 64)
+	tiles := make([]uint64, 0, 32)
 
-	if d.mode < 2 {
-		for i := range tiles {
-			tiles[i] = uint64(d.ReadUint32())
-		}
-	} else {
-		for i := range tiles {
-			tiles[i] = d.ReadUint64()
-		}
+	for i := uint64(0); i < count && d.Err == nil; i++ {
+		tiles = append(tiles, d.readLayerPointer())
 	}
 
 	return tiles
-- 
2.43.0


From 8b4269d961dc1a2627ae8509897107a8629060c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:11 +0000
Subject: [PATCH 48/72] fix: do not allocate XCF strings and parasites before
 they are read

---
 xcf/parasites.go | 19 ++++++-------------
 xcf/reader.go    | 21 ++++++++++++++++-----
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/xcf/parasites.go b/xcf/parasites.go
index d36bdc6..6a28a0a 100644
--- a/xcf/parasites.go
+++ b/xcf/parasites.go
@@ -36,27 +36,22 @@ func (p parasites) Get(name string) *parasite {
 func (d *reader) ReadParasites(l uint32) parasites {
 	ps := make(parasites, 0, 32)
 
-	for l > 0 {
+	end := d.rs.pos + int64(l)
+
+	for d.rs.pos < end && d.Err == nil {
 		var p parasite
 
 		p.name = d.ReadString()
 		p.flags = d.ReadUint32()
 		pplength := d.ReadUint32()
-		read := 4 + uint32(len(p.name)) + 1 // length (uint32) + string([]byte) + \0 (byte)
-		read += 4                           // flags
-		read += 4                           // pplength
-		read += pplength                    // len(data)
 
-		if read > l {
+		if int64(pplength) > end-d.rs.pos {
 			d.SetError(ErrInvalidParasites)
 
 			return nil
 		}
 
-		l -= read
-		p.data = make([]byte, pplength)
-
-		d.Read(p.data)
+		p.data = d.readBytes(pplength)
 
 		ps = append(ps, p)
 	}
@@ -71,9 +66,7 @@ func (d *reader) ReadParasite() parasite {
 	p.flags = d.ReadUint32()
 	pplength := d.ReadUint32()
 
-	p.data = make([]byte, pplength)
-
-	d.Read(p.data)
+	p.data = d.readBytes(pplength)
 
 	return p
 }
diff --git a/xcf/reader.go b/xcf/reader.go
index 4f8cdba..e9daf81 100644
--- a/xcf/reader.go
+++ b/xcf/reader.go
@@ -1,6 +1,7 @@
 package xcf
 
 import (
+	"bytes"
 	"errors"
 	"io"
 	"math"
@@ -54,11 +55,8 @@ func (r *reader) ReadString() string {
 		return ""
 	}
 
-	b := make([]byte, length)
-
-	if _, err := io.ReadFull(r, b); err != nil {
-		r.Err = err
-
+	b := r.readBytes(length)
+	if r.Err != nil {
 		return ""
 	}
 
@@ -71,6 +69,19 @@ func (r *reader) ReadString() string {
 	return string(b[:length-1])
 }
 
+// readBytes allocates as it reads, as the length may well be wrong.
+func (r *reader) readBytes(length uint32) []byte {
+	var buf bytes.Buffer
+
+	if _, err := io.CopyN(&buf, r, int64(length)); err != nil {
+		r.SetError(err)
+
+		return nil
+	}
+
+	return buf.Bytes()
+}
+
 func (r *reader) Goto(n uint64) {
 	if n > math.MaxInt64 {
 		r.SetError(ErrInvalidSeek)
-- 
2.43.0


From 5a15037473669824b077826a303dd625b1d3e28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:11 +0000
Subject: [PATCH 49/72] fix: do not allocate XCF item paths before they are
 read

---
 xcf/layer_decode.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index 33c84cb..9733abf 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -243,10 +243,10 @@ func (l *layer) readItemPath(d *decoder, plength uint32) {
 		d.SetError(ErrInvalidItemPathLength)
 	}
 
-	l.itemPath = make([]rune, plength>>2)
+	l.itemPath = nil
 
-	for i := uint32(0); i < plength>>2; i++ {
-		l.itemPath[i] = rune(d.ReadUint32())
+	for i := uint32(0); i < plength>>2 && d.Err == nil; i++ {
+		l.itemPath = append(l.itemPath, rune(d.ReadUint32()))
 	}
 }
 
-- 
2.43.0


From 989a559a9f1bf45fddd79445c79b614ee030a31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:12 +0000
Subject: [PATCH 50/72] fix: read a limited number of XCF layers at once, and
 report the error of the first that fails

---
 xcf/decoder.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 1efe8f5..ba44b0e 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -340,17 +340,20 @@ func readLayerPointers(dr reader, mode uint32) []uint64 {
 	}
 }
 
+const maxReaders = 64 // layers read at the same time
+
 func readLayers(dr reader, r io.ReaderAt, layerptrs []uint64, baseType uint32, palette lcolor.AlphaPalette, compression uint8, precision, mode uint32, decompress bool) []layer {
 	layers := make([]layer, len(layerptrs))
+	errs := make([]error, len(layerptrs))
+	limit := make(chan struct{}, maxReaders)
 
-	var (
-		errLock sync.Mutex
-		wg      sync.WaitGroup
-	)
+	var wg sync.WaitGroup
 
 	wg.Add(len(layerptrs))
 
 	for n, lptr := range layerptrs {
+		limit <- struct{}{}
+
 		go func(n int, lptr uint64) {
 			d := decoder{
 				reader:      newReader(r),
@@ -365,19 +368,21 @@ func readLayers(dr reader, r io.ReaderAt, layerptrs []uint64, baseType uint32, p
 			d.Goto(lptr)
 
 			layers[n] = d.ReadLayer()
+			errs[n] = d.Err
 
-			if d.Err != nil {
-				errLock.Lock()
-				dr.SetError(d.Err)
-				errLock.Unlock()
-			}
-
+			<-limit
 			wg.Done()
 		}(n, lptr)
 	}
 
 	wg.Wait()
 
+	for _, err := range errs {
+		if err != nil {
+			dr.SetError(err)
+		}
+	}
+
 	return layers
 }
 
-- 
2.43.0


From 25f8821c1793b7043ded5a3e1a4f3efdb27128da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:12 +0000
Subject: [PATCH 51/72] fix: refuse XCF pixels beyond the palette

---
 xcf/image_decode.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index 7aae2b3..678330a 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -4,6 +4,7 @@ import (
 	"image"
 	"image/color"
 
+	"vimagination.zapto.org/byteio"
 	"vimagination.zapto.org/limage"
 	"vimagination.zapto.org/limage/lcolor"
 	"vimagination.zapto.org/memio"
@@ -194,9 +195,26 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 		}
 	}
 
+	switch im := im.(type) {
+	case *image.Paletted:
+		for _, i := range im.Pix {
+			d.checkIndex(i)
+		}
+	case *limage.PalettedAlpha:
+		for _, ia := range im.Pix {
+			d.checkIndex(ia.I)
+		}
+	}
+
 	return im
 }
 
+func (d *decoder) checkIndex(i uint8) {
+	if int(i) >= len(d.palette) {
+		d.SetError(ErrInconsistantData)
+	}
+}
+
 func (d *decoder) readCompressedImage(mode uint32, r image.Rectangle, bpp, width, height uint32, tiles []uint64) image.Image {
 	ci := compressedImage{
 		tiles: make([][][]byte, 0, len(tiles)),
@@ -237,6 +255,17 @@ func (d *decoder) readCompressedImage(mode uint32, r image.Rectangle, bpp, width
 			}
 
 			ci.tiles = append(ci.tiles, ts)
+
+			if mode == 4 || mode == 5 {
+				data := memio.Buffer(ts[0])
+				indices := ci.decompressed[:n]
+
+				(&rle{Reader: &byteio.StickyBigEndianReader{Reader: &data}}).Read(indices)
+
+				for _, i := range indices {
+					d.checkIndex(i)
+				}
+			}
 		}
 	}
 
-- 
2.43.0


From 50c15541258040418160070fa2816fb52a7bb21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:34 +0000
Subject: [PATCH 52/72] fix: share the decompressed tile of deferred XCF images
 safely

---
 xcf/compressed.go   | 28 +++++++++++++++++++++----
 xcf/image_decode.go | 51 +++++++++++++++++++++++++++------------------
 2 files changed, 55 insertions(+), 24 deletions(-)

diff --git a/xcf/compressed.go b/xcf/compressed.go
index a2c4264..0e2ba40 100644
--- a/xcf/compressed.go
+++ b/xcf/compressed.go
@@ -5,6 +5,7 @@ import (
 	"image"
 	"image/color"
 	"io"
+	"sync"
 
 	"vimagination.zapto.org/byteio"
 	"vimagination.zapto.org/limage/lcolor"
@@ -12,6 +13,7 @@ import (
 )
 
 type compressedImage struct {
+	mutex        sync.Mutex // protects tile and decompressed
 	tiles        [][][]byte
 	width        int
 	tile         int
@@ -53,7 +55,7 @@ type CompressedRGB struct {
 }
 
 // ColorModel returns the RGB Color Model.
-func (CompressedRGB) ColorModel() color.Model { return lcolor.RGBModel }
+func (*CompressedRGB) ColorModel() color.Model { return lcolor.RGBModel }
 
 // Bounds returns a Rect containing the boundary data for the image.
 func (c *CompressedRGB) Bounds() image.Rectangle { return c.Rect }
@@ -67,6 +69,9 @@ func (c *CompressedRGB) RGBAt(x, y int) lcolor.RGB {
 		return lcolor.RGB{}
 	}
 
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	p := c.decompressTile(x, y)
 
 	return lcolor.RGB{
@@ -84,7 +89,7 @@ type CompressedNRGBA struct {
 }
 
 // ColorModel returns the NRGBA Color Model.
-func (CompressedNRGBA) ColorModel() color.Model { return color.NRGBAModel }
+func (*CompressedNRGBA) ColorModel() color.Model { return color.NRGBAModel }
 
 // Bounds returns a Rect containing the boundary data for the image.
 func (c *CompressedNRGBA) Bounds() image.Rectangle { return c.Rect }
@@ -98,6 +103,9 @@ func (c *CompressedNRGBA) NRGBAAt(x, y int) color.NRGBA {
 		return color.NRGBA{}
 	}
 
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	p := c.decompressTile(x, y)
 
 	return color.NRGBA{
@@ -116,7 +124,7 @@ type CompressedGray struct {
 }
 
 // ColorModel returns the Gray Color Model.
-func (CompressedGray) ColorModel() color.Model { return color.GrayModel }
+func (*CompressedGray) ColorModel() color.Model { return color.GrayModel }
 
 // Bounds returns a Rect containing the boundary data for the image.
 func (c *CompressedGray) Bounds() image.Rectangle { return c.Rect }
@@ -130,6 +138,9 @@ func (c *CompressedGray) GrayAt(x, y int) color.Gray {
 		return color.Gray{}
 	}
 
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	p := c.decompressTile(x, y)
 
 	return color.Gray{
@@ -145,7 +156,7 @@ type CompressedGrayAlpha struct {
 }
 
 // ColorModel returns the Gray Alpha Color Model.
-func (CompressedGrayAlpha) ColorModel() color.Model { return lcolor.GrayAlphaModel }
+func (*CompressedGrayAlpha) ColorModel() color.Model { return lcolor.GrayAlphaModel }
 
 // Bounds returns a Rect containing the boundary data for the image.
 func (c *CompressedGrayAlpha) Bounds() image.Rectangle { return c.Rect }
@@ -159,6 +170,9 @@ func (c *CompressedGrayAlpha) GrayAlphaAt(x, y int) lcolor.GrayAlpha {
 		return lcolor.GrayAlpha{}
 	}
 
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	p := c.decompressTile(x, y)
 
 	return lcolor.GrayAlpha{
@@ -191,6 +205,9 @@ func (c *CompressedPaletted) At(x, y int) color.Color {
 		return color.Gray{}
 	}
 
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	p := c.decompressTile(x, y)
 	i := c.decompressed[p]
 	r, g, b, _ := c.Palette[i].RGBA()
@@ -227,6 +244,9 @@ func (c *CompressedPalettedAlpha) At(x, y int) color.Color {
 		return color.Gray{}
 	}
 
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	p := c.decompressTile(x, y)
 	r, g, b, _ := c.Palette[c.decompressed[p]].RGBA()
 
diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index 678330a..1de30d3 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -216,12 +216,38 @@ func (d *decoder) checkIndex(i uint8) {
 }
 
 func (d *decoder) readCompressedImage(mode uint32, r image.Rectangle, bpp, width, height uint32, tiles []uint64) image.Image {
-	ci := compressedImage{
-		tiles: make([][][]byte, 0, len(tiles)),
-		width: int(width),
-		tile:  -1,
+	var (
+		im image.Image
+		ci *compressedImage
+	)
+
+	switch mode {
+	case 0: // rgb
+		c := &CompressedRGB{Rect: r}
+		im, ci = c, &c.compressedImage
+	case 1: // rgba
+		c := &CompressedNRGBA{Rect: r}
+		im, ci = c, &c.compressedImage
+	case 2: // gray
+		c := &CompressedGray{Rect: r}
+		im, ci = c, &c.compressedImage
+	case 3: // gray + alpha
+		c := &CompressedGrayAlpha{Rect: r}
+		im, ci = c, &c.compressedImage
+	case 4: // indexed
+		c := &CompressedPaletted{Rect: r, Palette: color.Palette(d.palette)}
+		im, ci = c, &c.compressedImage
+	case 5: // indexed + alpha
+		c := &CompressedPalettedAlpha{Rect: r, Palette: d.palette}
+		im, ci = c, &c.compressedImage
+	default:
+		return nil
 	}
 
+	ci.tiles = make([][][]byte, 0, len(tiles))
+	ci.width = int(width)
+	ci.tile = -1
+
 	buf := make(memio.Buffer, 0, 64*64*4)
 
 	for y := uint32(0); y < height; y += 64 {
@@ -269,22 +295,7 @@ func (d *decoder) readCompressedImage(mode uint32, r image.Rectangle, bpp, width
 		}
 	}
 
-	switch mode {
-	case 0: // rgb
-		return &CompressedRGB{ci, r}
-	case 1: // rgba
-		return &CompressedNRGBA{ci, r}
-	case 2: // gray
-		return &CompressedGray{ci, r}
-	case 3: // gray + alpha
-		return &CompressedGrayAlpha{ci, r}
-	case 4: // indexed
-		return &CompressedPaletted{ci, r, color.Palette(d.palette)}
-	case 5: // indexed + alpha
-		return &CompressedPalettedAlpha{ci, r, d.palette}
-	default:
-		return nil
-	}
+	return im
 }
 
 /*
-- 
2.43.0


From 1082ccef5d44bb78ab2cf1e52d26faf873c3517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:35 +0000
Subject: [PATCH 53/72] fix: show the same beyond deferred indexed XCF images
 as beyond others

---
 xcf/compressed.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/xcf/compressed.go b/xcf/compressed.go
index 0e2ba40..5cb1ec5 100644
--- a/xcf/compressed.go
+++ b/xcf/compressed.go
@@ -197,12 +197,12 @@ func (c *CompressedPaletted) Bounds() image.Rectangle { return c.Rect }
 
 // At returns colour at the specified coords.
 func (c *CompressedPaletted) At(x, y int) color.Color {
-	if c.Palette == nil {
+	if len(c.Palette) == 0 {
 		return nil
 	}
 
 	if !(image.Point{x, y}).In(c.Rect) {
-		return color.Gray{}
+		return c.Palette[0]
 	}
 
 	c.mutex.Lock()
@@ -236,12 +236,18 @@ func (c *CompressedPalettedAlpha) Bounds() image.Rectangle { return c.Rect }
 
 // At returns colour at the specified coords.
 func (c *CompressedPalettedAlpha) At(x, y int) color.Color {
-	if c.Palette == nil {
+	if len(c.Palette) == 0 {
 		return nil
 	}
 
 	if !(image.Point{x, y}).In(c.Rect) {
-		return color.Gray{}
+		r, g, b, _ := c.Palette[0].RGBA()
+
+		return color.NRGBA{
+			R: uint8(r >> 8),
+			G: uint8(g >> 8),
+			B: uint8(b >> 8),
+		}
 	}
 
 	c.mutex.Lock()
-- 
2.43.0


From 7f516c49e53c4e1b17dbeed73c5679d605e088c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:35 +0000
Subject: [PATCH 54/72] fix: do not look into the empty palette of an image

---
 indexedalpha.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedalpha.go b/indexedalpha.go
index 5f4a1a9..5bd116d 100644
--- a/indexedalpha.go
+++ b/indexedalpha.go
@@ -29,7 +29,7 @@ func NewPalettedAlpha(r image.Rectangle, p lcolor.AlphaPalette) *PalettedAlpha {
 
 // At returns the color of the pixel at the given coords.
 func (p *PalettedAlpha) At(x, y int) color.Color {
-	if p.Palette == nil {
+	if len(p.Palette) == 0 {
 		return nil
 	}
 
-- 
2.43.0


From f8dd91e838e85be4220a982064cd1260522085f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:36 +0000
Subject: [PATCH 55/72] fix: read in full from sources that seek, and unlock
 them when they fail

---
 internal/bufioToReader.go | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/internal/bufioToReader.go b/internal/bufioToReader.go
index 0a64028..0d66689 100644
--- a/internal/bufioToReader.go
+++ b/internal/bufioToReader.go
@@ -2,6 +2,7 @@ package internal // import "vimagination.zapto.org/limage/internal"
 
 import (
 	"bufio"
+	"errors"
 	"io"
 	"sync"
 	"unsafe"
@@ -23,24 +24,32 @@ type readerAt struct {
 	pos        int64
 }
 
+const unknownPos = -1
+
 func (r *readerAt) ReadAt(p []byte, offset int64) (int, error) {
 	r.readMutex.Lock()
-
-	var (
-		n   int
-		err error
-	)
+	defer r.readMutex.Unlock()
 
 	if offset != r.pos {
-		r.pos, err = r.ReadSeeker.Seek(offset, io.SeekStart)
-		if err != nil {
+		r.pos = unknownPos
+
+		if _, err := r.ReadSeeker.Seek(offset, io.SeekStart); err != nil {
 			return 0, err
 		}
+
+		r.pos = offset
 	}
 
-	n, err = r.ReadSeeker.Read(p)
+	n, err := io.ReadFull(r.ReadSeeker, p)
 	r.pos += int64(n)
-	r.readMutex.Unlock()
+
+	if err != nil {
+		r.pos = unknownPos
+
+		if errors.Is(err, io.ErrUnexpectedEOF) {
+			err = io.EOF
+		}
+	}
 
 	return n, err
 }
@@ -51,11 +60,7 @@ func bufioToReader(b *bufio.Reader) io.ReaderAt {
 	if ra, ok := br.rd.(io.ReaderAt); ok {
 		return ra
 	} else if rs, ok := br.rd.(io.ReadSeeker); ok {
-		rs.Seek(0, 0)
-
-		return &readerAt{
-			ReadSeeker: rs,
-		}
+		return &readerAt{ReadSeeker: rs, pos: unknownPos}
 	}
 
 	return nil
@@ -68,7 +73,7 @@ func GetReaderAt(r io.Reader) io.ReaderAt {
 	} else if ra, ok := r.(io.ReaderAt); ok {
 		return ra
 	} else if rs, ok := r.(io.ReadSeeker); ok {
-		return &readerAt{ReadSeeker: rs}
+		return &readerAt{ReadSeeker: rs, pos: unknownPos}
 	}
 
 	return nil
-- 
2.43.0


From 6f88bf9e0bb934183359769d4ae57741c540f3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:38 +0000
Subject: [PATCH 56/72] fix: do not hang, panic or overflow the stack on
 malformed texts in XCF files

---
 xcf/parasites.go | 26 ++++++++++++++++----------
 xcf/text.go      |  4 +++-
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/xcf/parasites.go b/xcf/parasites.go
index 6a28a0a..b6366fe 100644
--- a/xcf/parasites.go
+++ b/xcf/parasites.go
@@ -79,7 +79,7 @@ func (ps *parasite) Parse() ([]tag, error) {
 	tags := make([]tag, 0, 32)
 
 	for {
-		tag, err := readTag(&p)
+		tag, err := readTag(&p, 0)
 		if err != nil {
 			if !errors.Is(p.Err, io.EOF) {
 				return nil, err
@@ -101,7 +101,9 @@ const (
 	valName    = chars + "-"
 	digit      = "1234567890"
 	quoted     = "\""
-	whitespace = "\n\r "
+	whitespace = "\n\r\t "
+	wordEnd    = open + close + quoted + whitespace + "\x00"
+	maxNested  = 100
 )
 
 const (
@@ -118,7 +120,11 @@ type tag struct {
 	Values []interface{}
 }
 
-func readTag(p *parser.Parser) (tag, error) {
+func readTag(p *parser.Parser, depth int) (tag, error) {
+	if depth > maxNested {
+		return tag{}, ErrInvalidParasites
+	}
+
 	if p.Accept(parser.TokenDone) {
 		return tag{}, io.EOF
 	}
@@ -163,7 +169,7 @@ func readTag(p *parser.Parser) (tag, error) {
 
 			return tg, nil
 		case tokenOpen:
-			ttg, err := readTag(p)
+			ttg, err := readTag(p, depth+1)
 
 			p.TokeniserState(valueTK)
 
@@ -260,7 +266,7 @@ func valueTK(t *parser.Tokeniser) (parser.Token, parser.TokenFunc) {
 		}, valueTK
 	}
 
-	t.AcceptRun(valName)
+	t.ExceptRun(wordEnd)
 
 	return parser.Token{
 		Type: tokenValueString,
@@ -272,20 +278,20 @@ func quotedString(t *parser.Tokeniser) string {
 	t.Accept(quoted)
 	t.Get()
 
-	var s string
+	var s strings.Builder
 
 	for {
 		t.ExceptRun(quoted + "\\")
 
-		s += t.Get()
+		s.WriteString(t.Get())
 
 		if t.Accept("\\") {
 			c := string(t.Peek())
 			switch c {
 			case "\"", "\\":
-				s += c
+				s.WriteString(c)
 			default:
-				s += "\\" + c
+				s.WriteString("\\" + c)
 			}
 
 			t.Accept(c)
@@ -300,7 +306,7 @@ func quotedString(t *parser.Tokeniser) string {
 	t.Accept(quoted)
 	t.Get()
 
-	return s
+	return s.String()
 }
 
 // Errors.
diff --git a/xcf/text.go b/xcf/text.go
index 8344279..f2220ba 100644
--- a/xcf/text.go
+++ b/xcf/text.go
@@ -74,7 +74,9 @@ func parseText(tags []tag) (string, limage.TextDatum) {
 	for _, tg := range tags {
 		switch tg.Name {
 		case "text":
-			defaultText.Data, _ = tg.Values[0].(string)
+			if len(tg.Values) == 1 {
+				defaultText.Data, _ = tg.Values[0].(string)
+			}
 		case "markup":
 			if len(tg.Values) == 1 {
 				textData, _ = tg.Values[0].(string)
-- 
2.43.0


From a04ba4b6405808f6b4e298dbf61a6bc629d60ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:38 +0000
Subject: [PATCH 57/72] fix: quote the texts and fonts of XCF files as GIMP
 does

---
 xcf/parasites.go | 41 ++++++++++++++++++++------
 xcf/text.go      | 76 +++++++++++++++++++++++++++---------------------
 2 files changed, 75 insertions(+), 42 deletions(-)

diff --git a/xcf/parasites.go b/xcf/parasites.go
index b6366fe..a7ed822 100644
--- a/xcf/parasites.go
+++ b/xcf/parasites.go
@@ -100,6 +100,7 @@ const (
 	chars      = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
 	valName    = chars + "-"
 	digit      = "1234567890"
+	octal      = "01234567"
 	quoted     = "\""
 	whitespace = "\n\r\t "
 	wordEnd    = open + close + quoted + whitespace + "\x00"
@@ -286,16 +287,8 @@ func quotedString(t *parser.Tokeniser) string {
 		s.WriteString(t.Get())
 
 		if t.Accept("\\") {
-			c := string(t.Peek())
-			switch c {
-			case "\"", "\\":
-				s.WriteString(c)
-			default:
-				s.WriteString("\\" + c)
-			}
-
-			t.Accept(c)
 			t.Get()
+			s.WriteString(escaped(t))
 
 			continue
 		}
@@ -309,6 +302,36 @@ func quotedString(t *parser.Tokeniser) string {
 	return s.String()
 }
 
+// escaped reads what follows a backslash: up to three octal digits for a byte,
+// or a character that may have a meaning.
+func escaped(t *parser.Tokeniser) string {
+	if t.Accept(octal) {
+		t.Accept(octal)
+		t.Accept(octal)
+
+		n, _ := strconv.ParseUint(t.Get(), 8, 16)
+
+		return string([]byte{byte(n)})
+	}
+
+	t.Except("")
+
+	switch c := t.Get(); c {
+	case "n":
+		return "\n"
+	case "r":
+		return "\r"
+	case "t":
+		return "\t"
+	case "b":
+		return "\b"
+	case "f":
+		return "\f"
+	default:
+		return c
+	}
+}
+
 // Errors.
 var (
 	ErrInvalidParasites = errors.New("invalid parasites layout")
diff --git a/xcf/text.go b/xcf/text.go
index f2220ba..0bd5481 100644
--- a/xcf/text.go
+++ b/xcf/text.go
@@ -5,12 +5,10 @@ import (
 	"encoding/xml"
 	"errors"
 	"fmt"
-	"html"
 	"image/color"
 	"io"
 	"strconv"
 	"strings"
-	"unsafe"
 
 	"vimagination.zapto.org/limage"
 	"vimagination.zapto.org/limage/lcolor"
@@ -183,27 +181,38 @@ func processText(t xml.StartElement, nt limage.TextDatum) (limage.TextDatum, err
 	return nt, nil
 }
 
-type quoteWriter struct {
-	*bytes.Buffer
-}
-
-func (q *quoteWriter) Write(b []byte) (int, error) {
-	return q.WriteString(*(*string)(unsafe.Pointer(&b)))
-}
-
-func (q *quoteWriter) WriteString(s string) (int, error) {
-	for _, r := range s {
-		switch r {
-		case '\\':
-			q.Buffer.WriteString("\\\\")
-		case '"':
-			q.Buffer.WriteString("\\\"")
+// appendQuoted appends a string in quotes, escaped as GIMP does.
+func appendQuoted(data []byte, s string) []byte {
+	data = append(data, '"')
+
+	for _, c := range []byte(s) {
+		switch c {
+		case '\\', '"':
+			data = append(data, '\\', c)
+		case '\n':
+			data = append(data, "\\n"...)
+		case '\r':
+			data = append(data, "\\r"...)
+		case '\t':
+			data = append(data, "\\t"...)
 		default:
-			q.Buffer.WriteRune(r)
+			if c < ' ' {
+				data = fmt.Appendf(data, "\\%03o", c)
+			} else {
+				data = append(data, c)
+			}
 		}
 	}
 
-	return len(s), nil
+	return append(data, '"')
+}
+
+func appendXML(data []byte, s string) []byte {
+	var buf bytes.Buffer
+
+	xml.EscapeText(&buf, []byte(s))
+
+	return append(data, buf.Bytes()...)
 }
 
 func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
@@ -214,26 +223,27 @@ func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
 
 	if len(text) == 1 {
 		base = text[0]
-		data = fmt.Appendf(data, "(text %q)\n", base.Data)
+		data = append(appendQuoted(append(data, "(text "...), base.Data), ")\n"...)
 	} else {
 		base = limage.TextDatum{
 			Font: "Sans",
 			Size: 18,
 		}
 
-		data = append(data, "(markup \"<markup>"...)
+		markup := []byte("<markup>")
 
 		for _, td := range text {
-			data = writeTextMarkup(td, data)
+			markup = writeTextMarkup(td, markup)
 		}
 
-		data = append(data, "</markup>\")\n"...)
+		markup = append(markup, "</markup>"...)
+		data = append(appendQuoted(append(data, "(markup "...), string(markup)), ")\n"...)
 	}
 
 	r, g, b, _ := base.ForeColor.RGBA()
 
-	data = fmt.Appendf(data, "(font %q)\n"+
-		"(font-size %d.000000000)\n"+
+	data = append(appendQuoted(append(data, "(font "...), base.Font), ")\n"...)
+	data = fmt.Appendf(data, "(font-size %d.000000000)\n"+
 		"(font-size-units pixels)\n"+
 		"(antialias yes)\n"+
 		"(base-direction ltr)\n"+
@@ -244,7 +254,7 @@ func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
 		"(box-height %d.000000)\n"+
 		"(box-unit pixels)\n"+
 		"(hinting yes)\n"+
-		"\x00", base.Font, base.Size, r>>8, g>>8, b>>8, dx, dy)
+		"\x00", base.Size, r>>8, g>>8, b>>8, dx, dy)
 
 	// write base
 
@@ -264,17 +274,17 @@ func writeTextMarkup(td limage.TextDatum, data []byte) []byte {
 	closers := make([]string, 0)
 
 	if r, g, b, _ := td.ForeColor.RGBA(); r != 0 || g != 0 || b != 0 {
-		data = fmt.Appendf(data, "<span foreground=\\\"#%02X%02X%02X\\\">", r>>8, g>>8, b>>8)
+		data = fmt.Appendf(data, "<span foreground=\"#%02X%02X%02X\">", r>>8, g>>8, b>>8)
 		closers = append(closers, "</span>")
 	}
 
 	if r, g, b, _ := td.BackColor.RGBA(); r != 0 || g != 0 || b != 0 {
-		data = fmt.Appendf(data, "<span background=\\\"#%02X%02X%02X\\\">", r, g, b)
+		data = fmt.Appendf(data, "<span background=\"#%02X%02X%02X\">", r, g, b)
 		closers = append(closers, "</span>")
 	}
 
 	if td.Font != "Sans" {
-		data = fmt.Appendf(data, "<span font=%q>", td.Font)
+		data = append(appendXML(append(data, "<span font=\""...), td.Font), "\">"...)
 		closers = append(closers, "</span>")
 	}
 
@@ -299,21 +309,21 @@ func writeTextMarkup(td limage.TextDatum, data []byte) []byte {
 	}
 
 	if td.LetterSpacing != 0 {
-		data = fmt.Appendf(data, "<span letter_spacing=\\\"%d\\\">", td.LetterSpacing<<10)
+		data = fmt.Appendf(data, "<span letter_spacing=\"%d\">", td.LetterSpacing<<10)
 		closers = append(closers, "</span>")
 	}
 
 	if td.Size != 18 {
-		data = fmt.Appendf(data, "<span size=\\\"%d\\\">", td.Size<<10)
+		data = fmt.Appendf(data, "<span size=\"%d\">", td.Size<<10)
 		closers = append(closers, "</span>")
 	}
 
 	if td.Rise != 0 {
-		data = fmt.Appendf(data, "<span rise=\\\"%d\\\">", td.Rise<<10)
+		data = fmt.Appendf(data, "<span rise=\"%d\">", td.Rise<<10)
 		closers = append(closers, "</span>")
 	}
 
-	data = fmt.Appendf(data, "%q", html.EscapeString(td.Data))
+	data = appendXML(data, td.Data)
 
 	for i := len(closers) - 1; i >= 0; i-- {
 		data = append(data, closers[i]...)
-- 
2.43.0


From b8ede0a03a779ff735a5dc3ed10bcbf4e7a085d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:39 +0000
Subject: [PATCH 58/72] fix: read and write the colours of XCF texts in
 fractions

---
 xcf/text.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/xcf/text.go b/xcf/text.go
index 0bd5481..e5876b9 100644
--- a/xcf/text.go
+++ b/xcf/text.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"image/color"
 	"io"
+	"math"
 	"strconv"
 	"strings"
 
@@ -96,11 +97,11 @@ func parseText(tags []tag) (string, limage.TextDatum) {
 			if len(tg.Values) == 1 {
 				t, _ := tg.Values[0].(tag)
 
-				if t.Name == "color-rgb" && len(t.Values) != 3 {
+				if t.Name == "color-rgb" && len(t.Values) == 3 {
 					r, _ := t.Values[0].(float64)
 					g, _ := t.Values[1].(float64)
 					b, _ := t.Values[2].(float64)
-					defaultText.ForeColor = lcolor.RGB{R: uint8(r), G: uint8(g), B: uint8(b)}
+					defaultText.ForeColor = lcolor.RGB{R: fraction(r), G: fraction(g), B: fraction(b)}
 				}
 			}
 		case "justify":
@@ -115,6 +116,11 @@ func parseText(tags []tag) (string, limage.TextDatum) {
 	return textData, defaultText
 }
 
+// fraction converts a level of 0 to 1.
+func fraction(f float64) uint8 {
+	return uint8(math.Min(math.Max(f, 0), 1)*255 + 0.5)
+}
+
 func processText(t xml.StartElement, nt limage.TextDatum) (limage.TextDatum, error) {
 	switch t.Name.Local {
 	case "markup":
@@ -247,14 +253,14 @@ func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
 		"(font-size-units pixels)\n"+
 		"(antialias yes)\n"+
 		"(base-direction ltr)\n"+
-		"(color (color-rgb %d.000000 %d.000000 %d.000000))\n"+
+		"(color (color-rgb %f %f %f))\n"+
 		"(justify left)\n"+
 		"(box-mode dynamic)\n"+
 		"(box-width %d.000000)\n"+
 		"(box-height %d.000000)\n"+
 		"(box-unit pixels)\n"+
 		"(hinting yes)\n"+
-		"\x00", base.Size, r>>8, g>>8, b>>8, dx, dy)
+		"\x00", base.Size, float64(r>>8)/255, float64(g>>8)/255, float64(b>>8)/255, dx, dy)
 
 	// write base
 
-- 
2.43.0


From fb7e49a5d4745cdb7043b995fbe5c21c840d24c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:39 +0000
Subject: [PATCH 59/72] fix: write XCF texts without colours

---
 xcf/text.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/xcf/text.go b/xcf/text.go
index e5876b9..1b5020b 100644
--- a/xcf/text.go
+++ b/xcf/text.go
@@ -221,6 +221,16 @@ func appendXML(data []byte, s string) []byte {
 	return append(data, buf.Bytes()...)
 }
 
+func rgba8(c color.Color) (r, g, b, a uint8) {
+	if c == nil {
+		return 0, 0, 0, 0
+	}
+
+	n := color.NRGBAModel.Convert(c).(color.NRGBA)
+
+	return n.R, n.G, n.B, n.A
+}
+
 func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
 	var (
 		data []byte
@@ -246,7 +256,7 @@ func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
 		data = append(appendQuoted(append(data, "(markup "...), string(markup)), ")\n"...)
 	}
 
-	r, g, b, _ := base.ForeColor.RGBA()
+	r, g, b, _ := rgba8(base.ForeColor)
 
 	data = append(appendQuoted(append(data, "(font "...), base.Font), ")\n"...)
 	data = fmt.Appendf(data, "(font-size %d.000000000)\n"+
@@ -260,7 +270,7 @@ func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
 		"(box-height %d.000000)\n"+
 		"(box-unit pixels)\n"+
 		"(hinting yes)\n"+
-		"\x00", base.Size, float64(r>>8)/255, float64(g>>8)/255, float64(b>>8)/255, dx, dy)
+		"\x00", base.Size, float64(r)/255, float64(g)/255, float64(b)/255, dx, dy)
 
 	// write base
 
@@ -279,12 +289,12 @@ func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
 func writeTextMarkup(td limage.TextDatum, data []byte) []byte {
 	closers := make([]string, 0)
 
-	if r, g, b, _ := td.ForeColor.RGBA(); r != 0 || g != 0 || b != 0 {
-		data = fmt.Appendf(data, "<span foreground=\"#%02X%02X%02X\">", r>>8, g>>8, b>>8)
+	if r, g, b, _ := rgba8(td.ForeColor); r != 0 || g != 0 || b != 0 {
+		data = fmt.Appendf(data, "<span foreground=\"#%02X%02X%02X\">", r, g, b)
 		closers = append(closers, "</span>")
 	}
 
-	if r, g, b, _ := td.BackColor.RGBA(); r != 0 || g != 0 || b != 0 {
+	if r, g, b, _ := rgba8(td.BackColor); r != 0 || g != 0 || b != 0 {
 		data = fmt.Appendf(data, "<span background=\"#%02X%02X%02X\">", r, g, b)
 		closers = append(closers, "</span>")
 	}
-- 
2.43.0


From 028726db93d7ee1a7fbe853f8e64fe5adbdf8d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:40 +0000
Subject: [PATCH 60/72] fix: keep the background of XCF texts

---
 xcf/text.go | 61 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 21 deletions(-)

diff --git a/xcf/text.go b/xcf/text.go
index 1b5020b..ed98b0e 100644
--- a/xcf/text.go
+++ b/xcf/text.go
@@ -130,26 +130,18 @@ func processText(t xml.StartElement, nt limage.TextDatum) (limage.TextDatum, err
 			case "font":
 				nt.Font = a.Value
 			case "foreground":
-				if len(a.Value) == 7 && a.Value[0] == '#' {
-					n, err := strconv.ParseUint(a.Value[1:], 16, 32)
-					if err != nil {
-						return nt, err
-					}
-
-					nt.ForeColor = color.RGBA{uint8(n >> 16), uint8((n >> 8) & 255), uint8(n & 255), 255}
-				} else if len(a.Value) == 4 && a.Value[0] == '#' {
-					n, err := strconv.ParseUint(a.Value[1:], 16, 32)
-					if err != nil {
-						return nt, err
-					}
-
-					r := (n >> 4) & 240
-					r |= r >> 4
-					g := n & 240
-					g |= g >> 4
-					b := n & 15
-					b |= b << 4
-					nt.ForeColor = color.RGBA{uint8(r), uint8(g), uint8(b), 255}
+				c, err := processColour(a.Value)
+				if err != nil {
+					return nt, err
+				} else if c != nil {
+					nt.ForeColor = c
+				}
+			case "background":
+				c, err := processColour(a.Value)
+				if err != nil {
+					return nt, err
+				} else if c != nil {
+					nt.BackColor = c
 				}
 			case "size":
 				s, err := strconv.ParseUint(a.Value, 10, 32)
@@ -187,6 +179,33 @@ func processText(t xml.StartElement, nt limage.TextDatum) (limage.TextDatum, err
 	return nt, nil
 }
 
+func processColour(value string) (color.Color, error) {
+	if len(value) == 7 && value[0] == '#' {
+		n, err := strconv.ParseUint(value[1:], 16, 32)
+		if err != nil {
+			return nil, err
+		}
+
+		return color.RGBA{uint8(n >> 16), uint8((n >> 8) & 255), uint8(n & 255), 255}, nil
+	} else if len(value) == 4 && value[0] == '#' {
+		n, err := strconv.ParseUint(value[1:], 16, 32)
+		if err != nil {
+			return nil, err
+		}
+
+		r := (n >> 4) & 240
+		r |= r >> 4
+		g := n & 240
+		g |= g >> 4
+		b := n & 15
+		b |= b << 4
+
+		return color.RGBA{uint8(r), uint8(g), uint8(b), 255}, nil
+	}
+
+	return nil, nil
+}
+
 // appendQuoted appends a string in quotes, escaped as GIMP does.
 func appendQuoted(data []byte, s string) []byte {
 	data = append(data, '"')
@@ -294,7 +313,7 @@ func writeTextMarkup(td limage.TextDatum, data []byte) []byte {
 		closers = append(closers, "</span>")
 	}
 
-	if r, g, b, _ := rgba8(td.BackColor); r != 0 || g != 0 || b != 0 {
+	if r, g, b, a := rgba8(td.BackColor); a != 0 {
 		data = fmt.Appendf(data, "<span background=\"#%02X%02X%02X\">", r, g, b)
 		closers = append(closers, "</span>")
 	}
-- 
2.43.0


From 5a310248263059539fcb47f965b2a14490bacb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:40 +0000
Subject: [PATCH 61/72] fix: accept any size, letter spacing and rise in XCF
 texts

---
 xcf/text.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/xcf/text.go b/xcf/text.go
index ed98b0e..6e099eb 100644
--- a/xcf/text.go
+++ b/xcf/text.go
@@ -144,26 +144,38 @@ func processText(t xml.StartElement, nt limage.TextDatum) (limage.TextDatum, err
 					nt.BackColor = c
 				}
 			case "size":
-				s, err := strconv.ParseUint(a.Value, 10, 32)
+				s, err := strconv.ParseInt(a.Value, 10, 64)
 				if err != nil {
 					return nt, err
 				}
 
-				nt.Size = uint32(s) >> 10
+				if s > 0 { // negative values have no place
+					nt.Size = uint32(s >> 10)
+				} else {
+					nt.Size = 0
+				}
 			case "letter_spacing":
-				ls, err := strconv.ParseUint(a.Value, 10, 32)
+				ls, err := strconv.ParseInt(a.Value, 10, 64)
 				if err != nil {
 					return nt, err
 				}
 
-				nt.LetterSpacing = uint32(ls) >> 10
+				if ls > 0 { // negative values have no place
+					nt.LetterSpacing = uint32(ls >> 10)
+				} else {
+					nt.LetterSpacing = 0
+				}
 			case "rise":
-				r, err := strconv.ParseUint(a.Value, 10, 32)
+				r, err := strconv.ParseInt(a.Value, 10, 64)
 				if err != nil {
 					return nt, err
 				}
 
-				nt.Rise = uint32(r) >> 10
+				if r > 0 { // negative values have no place
+					nt.Rise = uint32(r >> 10)
+				} else {
+					nt.Rise = 0
+				}
 			}
 		}
 	case "b":
@@ -344,17 +356,17 @@ func writeTextMarkup(td limage.TextDatum, data []byte) []byte {
 	}
 
 	if td.LetterSpacing != 0 {
-		data = fmt.Appendf(data, "<span letter_spacing=\"%d\">", td.LetterSpacing<<10)
+		data = fmt.Appendf(data, "<span letter_spacing=\"%d\">", uint64(td.LetterSpacing)<<10)
 		closers = append(closers, "</span>")
 	}
 
 	if td.Size != 18 {
-		data = fmt.Appendf(data, "<span size=\"%d\">", td.Size<<10)
+		data = fmt.Appendf(data, "<span size=\"%d\">", uint64(td.Size)<<10)
 		closers = append(closers, "</span>")
 	}
 
 	if td.Rise != 0 {
-		data = fmt.Appendf(data, "<span rise=\"%d\">", td.Rise<<10)
+		data = fmt.Appendf(data, "<span rise=\"%d\">", uint64(td.Rise)<<10)
 		closers = append(closers, "</span>")
 	}
 
-- 
2.43.0


From 6209491de6f34440cea06ae212db6f266613bba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:40 +0000
Subject: [PATCH 62/72] fix: name the unit of the font size in XCF texts as
 GIMP does

---
 xcf/text.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcf/text.go b/xcf/text.go
index 6e099eb..b04a5e9 100644
--- a/xcf/text.go
+++ b/xcf/text.go
@@ -291,7 +291,7 @@ func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
 
 	data = append(appendQuoted(append(data, "(font "...), base.Font), ")\n"...)
 	data = fmt.Appendf(data, "(font-size %d.000000000)\n"+
-		"(font-size-units pixels)\n"+
+		"(font-size-unit pixels)\n"+
 		"(antialias yes)\n"+
 		"(base-direction ltr)\n"+
 		"(color (color-rgb %f %f %f))\n"+
-- 
2.43.0


From 81f4e0bad026d509436e2368c25598555bc1ddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:40 +0000
Subject: [PATCH 63/72] fix: xcf: a text layer without any text is written as a
 text layer

---
 xcf/layer_encode.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/xcf/layer_encode.go b/xcf/layer_encode.go
index af9ff67..cfe7d73 100644
--- a/xcf/layer_encode.go
+++ b/xcf/layer_encode.go
@@ -17,7 +17,10 @@ func (e *encoder) WriteLayers(layers limage.Image, offsetX, offsetY int32, group
 func (e *encoder) WriteLayer(im limage.Layer, origin image.Point, offsetX, offsetY int32, groups []uint32, pw *pointerWriter) {
 	pw.WritePointer(uint32(e.pos))
 
-	var text limage.TextData
+	var (
+		text   limage.TextData
+		isText bool
+	)
 
 	img, mask := splitMask(im.Image)
 	group, isGroup := asGroup(img)
@@ -25,12 +28,12 @@ func (e *encoder) WriteLayer(im limage.Layer, origin image.Point, offsetX, offse
 
 	switch i := img.(type) {
 	case limage.Text:
-		text = i.TextData
+		text, isText = i.TextData, true
 	case *limage.Text:
-		text = i.TextData
+		text, isText = i.TextData, true
 	}
 
-	writeProperties(e, im, offsetX, offsetY, groups, isGroup, text)
+	writeProperties(e, im, offsetX, offsetY, groups, isGroup, isText, text)
 	e.WriteUint32(0)
 	writeLayer(e, img, mask, bounds)
 
@@ -60,7 +63,7 @@ func asGroup(im image.Image) (limage.Image, bool) {
 	return nil, false
 }
 
-func writeProperties(e *encoder, im limage.Layer, offsetX, offsetY int32, groups []uint32, group bool, text limage.TextData) {
+func writeProperties(e *encoder, im limage.Layer, offsetX, offsetY int32, groups []uint32, group, isText bool, text limage.TextData) {
 	b := im.Bounds()
 	dx, dy := uint32(b.Dx()), uint32(b.Dy())
 
@@ -96,7 +99,7 @@ func writeProperties(e *encoder, im limage.Layer, offsetX, offsetY int32, groups
 		}
 	}
 
-	if len(text) > 0 {
+	if isText {
 		e.WriteText(text, dx, dy)
 	}
 
-- 
2.43.0


From 6427dece51a9f82b0be9951ae69965fab2ef5c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:19 +0000
Subject: [PATCH 64/72] fix: reading the mimetype entry stopped before its end,
 so that a fault there, or a wrong checksum, was not noticed

---
 ora/decode.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/ora/decode.go b/ora/decode.go
index 6eba5b0..0ef3f8f 100644
--- a/ora/decode.go
+++ b/ora/decode.go
@@ -49,17 +49,11 @@ func checkMime(mimetype *zip.File) bool {
 		return false
 	}
 
-	var mime [len(mimetypeStr)]byte
-
-	_, err = io.ReadFull(mr, mime[:])
+	mime, err := io.ReadAll(io.LimitReader(mr, int64(len(mimetypeStr))+1))
 
 	mr.Close()
 
-	if err != nil {
-		return false
-	}
-
-	return string(mime[:]) == mimetypeStr
+	return err == nil && string(mime) == mimetypeStr
 }
 
 func (d *decoder) getDimensions() error {
-- 
2.43.0


From 400f6a54d4b84ecb498d076ac61651003b85f782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:23 +0000
Subject: [PATCH 65/72] fix: refuse to write names that the decoder refuses

Names of 16 MiB and more, and ones that are not UTF-8, were written to files
that cannot be read again.
---
 xcf/writer.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/xcf/writer.go b/xcf/writer.go
index f30e8e4..bb5a42c 100644
--- a/xcf/writer.go
+++ b/xcf/writer.go
@@ -3,6 +3,7 @@ package xcf
 import (
 	"errors"
 	"io"
+	"unicode/utf8"
 
 	"vimagination.zapto.org/byteio"
 )
@@ -39,11 +40,23 @@ func (w writer) Write(p []byte) {
 }
 
 func (w writer) WriteString(str string) {
+	if len(str) >= maxString {
+		w.SetError(ErrStringTooLong)
+	} else if !utf8.ValidString(str) {
+		w.SetError(ErrInvalidString)
+	}
+
 	w.WriteUint32(uint32(len(str)) + 1)
 	w.Write([]byte(str))
 	w.WriteUint8(0)
 }
 
+func (w writer) SetError(err error) {
+	if w.Err == nil {
+		w.Err = err
+	}
+}
+
 type pointerWriter struct {
 	bw      *byteio.StickyBigEndianWriter
 	toWrite uint32
-- 
2.43.0


From d45d947249207dece4fd5e9f82e7dfd99c28c4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:24 +0000
Subject: [PATCH 66/72] fix: refuse to write files that 32-bit pointers cannot
 reach the end of

Pointers beyond 4 GiB were cut off.
---
 xcf/channel.go      |  2 +-
 xcf/image_encode.go |  4 ++--
 xcf/layer_encode.go |  6 +++---
 xcf/writer.go       | 11 +++++++++++
 4 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/xcf/channel.go b/xcf/channel.go
index cd66799..310be55 100644
--- a/xcf/channel.go
+++ b/xcf/channel.go
@@ -60,6 +60,6 @@ func (e *encoder) WriteChannel(c *image.Gray, b image.Rectangle) {
 	e.WriteUint32(0) // No properties
 	e.WriteUint32(0)
 
-	e.WriteUint32(uint32(e.pos) + 4) // hptr
+	e.WriteUint32(e.pointer() + 4) // hptr
 	e.WriteImage(c, b, (*encoder).grayToBuf, 1)
 }
diff --git a/xcf/image_encode.go b/xcf/image_encode.go
index 9b7655c..318c2db 100644
--- a/xcf/image_encode.go
+++ b/xcf/image_encode.go
@@ -17,7 +17,7 @@ func (e *encoder) WriteImage(im image.Image, bounds image.Rectangle, colourFunc
 	e.WriteUint32(uint32(dy))
 	e.WriteUint32(uint32(colourChannels))
 
-	e.WriteUint32(uint32(e.pos) + 8) // currPos + this pointer (4) + zero pointer (4)
+	e.WriteUint32(e.pointer() + 8) // currPos + this pointer (4) + zero pointer (4)
 	e.WriteUint32(0)
 
 	// Level
@@ -56,7 +56,7 @@ func (e *encoder) WriteImage(im image.Image, bounds image.Rectangle, colourFunc
 				}
 			}
 
-			w.WritePointer(uint32(e.pos))
+			w.WritePointer(e.pointer())
 
 			for n := uint8(0); n < colourChannels; n++ {
 				e.WriteRLE(e.channelBuf[n][:l])
diff --git a/xcf/layer_encode.go b/xcf/layer_encode.go
index cfe7d73..b204126 100644
--- a/xcf/layer_encode.go
+++ b/xcf/layer_encode.go
@@ -15,7 +15,7 @@ func (e *encoder) WriteLayers(layers limage.Image, offsetX, offsetY int32, group
 }
 
 func (e *encoder) WriteLayer(im limage.Layer, origin image.Point, offsetX, offsetY int32, groups []uint32, pw *pointerWriter) {
-	pw.WritePointer(uint32(e.pos))
+	pw.WritePointer(e.pointer())
 
 	var (
 		text   limage.TextData
@@ -198,12 +198,12 @@ func modeID(mode limage.Composite) uint32 {
 func writeLayer(e *encoder, img image.Image, mask *image.Gray, bounds image.Rectangle) {
 	ptrs := e.ReservePointers(2)
 
-	ptrs.WritePointer(uint32(e.pos))
+	ptrs.WritePointer(e.pointer())
 
 	e.WriteImage(img, bounds, e.colourFunc, e.colourChannels)
 
 	if mask != nil {
-		ptrs.WritePointer(uint32(e.pos))
+		ptrs.WritePointer(e.pointer())
 		e.WriteChannel(mask, bounds)
 	} else {
 		ptrs.WritePointer(0)
diff --git a/xcf/writer.go b/xcf/writer.go
index bb5a42c..0cabc3d 100644
--- a/xcf/writer.go
+++ b/xcf/writer.go
@@ -3,6 +3,7 @@ package xcf
 import (
 	"errors"
 	"io"
+	"math"
 	"unicode/utf8"
 
 	"vimagination.zapto.org/byteio"
@@ -57,6 +58,16 @@ func (w writer) SetError(err error) {
 	}
 }
 
+// pointer is the current position, which must be small enough for it, or one a
+// few bytes further on, to be written as a pointer, which has 32 bits.
+func (w writer) pointer() uint32 {
+	if w.pos > math.MaxUint32-8 {
+		w.SetError(ErrTooBig)
+	}
+
+	return uint32(w.pos)
+}
+
 type pointerWriter struct {
 	bw      *byteio.StickyBigEndianWriter
 	toWrite uint32
-- 
2.43.0


From bd2437da71cc76781bf32f652d5b32314ec0d002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:24 +0000
Subject: [PATCH 67/72] fix: refuse to write palettes of more than 256 colours

They were written to files that cannot be read again, with indices that do not
fit a byte.
---
 xcf/encoder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xcf/encoder.go b/xcf/encoder.go
index 3a214d0..61b221a 100644
--- a/xcf/encoder.go
+++ b/xcf/encoder.go
@@ -70,6 +70,11 @@ func Encode(w io.WriterAt, im image.Image) error {
 			e.colourChannels = 4
 		}
 	}
+
+	if len(e.colourPalette) > 256 {
+		return ErrTooBig
+	}
+
 	e.WriteUint32(uint32(e.colourType))
 
 	// write property list
-- 
2.43.0


From 817c48352678b1857c1f8b07a5780faceea0068c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:41 +0000
Subject: [PATCH 68/72] fix: refuse to write offsets and sizes that XCF cannot
 hold

Offsets beyond 31 bits moved layers elsewhere, and negative sizes made files
that cannot be read again.
---
 xcf/encoder.go      |  6 +++++-
 xcf/layer_encode.go | 22 ++++++++++++++++++----
 xcf/writer.go       |  3 ++-
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/xcf/encoder.go b/xcf/encoder.go
index 61b221a..4055857 100644
--- a/xcf/encoder.go
+++ b/xcf/encoder.go
@@ -44,6 +44,10 @@ func Encode(w io.WriterAt, im image.Image) error {
 
 	b := im.Bounds()
 
+	if !validSize(b) {
+		return ErrInvalidBounds
+	}
+
 	e.WriteUint32(uint32(b.Dx()))
 	e.WriteUint32(uint32(b.Dy()))
 
@@ -105,7 +109,7 @@ func Encode(w io.WriterAt, im image.Image) error {
 		pw := e.ReservePointerList(layerCount(im))
 
 		e.WriteUint32(0) // no channels
-		e.WriteLayers(im, int32(-b.Min.X), int32(-b.Min.Y), make([]uint32, 0, 32), pw)
+		e.WriteLayers(im, int64(-b.Min.X), int64(-b.Min.Y), make([]uint32, 0, 32), pw)
 	default:
 		pw := e.ReservePointerList(1)
 
diff --git a/xcf/layer_encode.go b/xcf/layer_encode.go
index b204126..8996bce 100644
--- a/xcf/layer_encode.go
+++ b/xcf/layer_encode.go
@@ -2,19 +2,26 @@ package xcf
 
 import (
 	"image"
+	"math"
 
 	"vimagination.zapto.org/limage"
 )
 
-func (e *encoder) WriteLayers(layers limage.Image, offsetX, offsetY int32, groups []uint32, pw *pointerWriter) {
+func (e *encoder) WriteLayers(layers limage.Image, offsetX, offsetY int64, groups []uint32, pw *pointerWriter) {
 	for n, layer := range layers {
 		nGroups := append(groups, uint32(n))
 
-		e.WriteLayer(layer, image.Point{}, offsetX+int32(layer.LayerBounds.Min.X), offsetY+int32(layer.LayerBounds.Min.Y), nGroups, pw)
+		e.WriteLayer(layer, image.Point{}, offsetX+int64(layer.LayerBounds.Min.X), offsetY+int64(layer.LayerBounds.Min.Y), nGroups, pw)
 	}
 }
 
-func (e *encoder) WriteLayer(im limage.Layer, origin image.Point, offsetX, offsetY int32, groups []uint32, pw *pointerWriter) {
+func (e *encoder) WriteLayer(im limage.Layer, origin image.Point, offsetX, offsetY int64, groups []uint32, pw *pointerWriter) {
+	if !validSize(im.LayerBounds) || int64(int32(offsetX)) != offsetX || int64(int32(offsetY)) != offsetY {
+		e.SetError(ErrInvalidBounds)
+
+		return
+	}
+
 	pw.WritePointer(e.pointer())
 
 	var (
@@ -33,13 +40,20 @@ func (e *encoder) WriteLayer(im limage.Layer, origin image.Point, offsetX, offse
 		text, isText = i.TextData, true
 	}
 
-	writeProperties(e, im, offsetX, offsetY, groups, isGroup, isText, text)
+	writeProperties(e, im, int32(offsetX), int32(offsetY), groups, isGroup, isText, text)
 	e.WriteUint32(0)
 	writeLayer(e, img, mask, bounds)
 
 	e.WriteLayers(group, offsetX, offsetY, groups, pw)
 }
 
+// validSize determines whether the size of a canvas or a layer can be written.
+func validSize(r image.Rectangle) bool {
+	dx, dy := int64(r.Dx()), int64(r.Dy())
+
+	return dx >= 0 && dx <= math.MaxUint32 && dy >= 0 && dy <= math.MaxUint32
+}
+
 // splitMask separates the image of a layer from its mask, if it has one.
 func splitMask(im image.Image) (image.Image, *image.Gray) {
 	switch im := im.(type) {
diff --git a/xcf/writer.go b/xcf/writer.go
index 0cabc3d..84c9819 100644
--- a/xcf/writer.go
+++ b/xcf/writer.go
@@ -124,5 +124,6 @@ func (w *writerAtWriter) Write(p []byte) (int, error) {
 
 // Errors.
 var (
-	ErrTooBig = errors.New("write too big")
+	ErrTooBig        = errors.New("write too big")
+	ErrInvalidBounds = errors.New("bounds cannot be written")
 )
-- 
2.43.0


From 4d49c0380a3d13da07f05aaaf4561b0a67c7a082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:41 +0000
Subject: [PATCH 69/72] fix: endless loop over the tiles of layers whose height
 is just below 2^32

The counter of the rows wrapped around, in a layer without width for ever.
---
 xcf/image_decode.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index 1de30d3..05b226f 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -148,17 +148,17 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 		stride = bpp
 	}
 
-	for y := uint32(0); y < height; y += 64 {
-		for x := uint32(0); x < width; x += 64 {
+	for y := uint64(0); y < uint64(height); y += 64 {
+		for x := uint64(0); x < uint64(width); x += 64 {
 			d.Goto(tiles[0])
 			tiles = tiles[1:]
 
-			w := width - x
+			w := width - uint32(x)
 			if w > 64 {
 				w = 64
 			}
 
-			h := height - y
+			h := height - uint32(y)
 			if h > 64 {
 				h = 64
 			}
@@ -189,7 +189,7 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 						pixel[k] = channels[k][(j*w+i)*stride]
 					}
 
-					imReader.ReadColour(int(x+i), int(y+j), pixel)
+					imReader.ReadColour(int(x)+int(i), int(y)+int(j), pixel)
 				}
 			}
 		}
@@ -250,18 +250,18 @@ func (d *decoder) readCompressedImage(mode uint32, r image.Rectangle, bpp, width
 
 	buf := make(memio.Buffer, 0, 64*64*4)
 
-	for y := uint32(0); y < height; y += 64 {
-		for x := uint32(0); x < width; x += 64 {
+	for y := uint64(0); y < uint64(height); y += 64 {
+		for x := uint64(0); x < uint64(width); x += 64 {
 			d.Goto(tiles[0])
 
 			tiles = tiles[1:]
 
-			w := width - x
+			w := width - uint32(x)
 			if w > 64 {
 				w = 64
 			}
 
-			h := height - y
+			h := height - uint32(y)
 			if h > 64 {
 				h = 64
 			}
-- 
2.43.0


From 9ab21135134b03ebc8eb1621040bb0356a292005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:12 +0000
Subject: [PATCH 70/72] fix: ora: do not write groups nested deeper than can be
 read

---
 ora/encode.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/ora/encode.go b/ora/encode.go
index 6de688b..af61034 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -25,6 +25,11 @@ func Encode(w io.Writer, m image.Image) error {
 	}
 
 	lim := toLayer(m)
+
+	if tooDeep(lim, maxDepth) {
+		return ErrInvalidStack
+	}
+
 	b := m.Bounds()
 	lim.LayerBounds.Max.X = b.Dx()
 	lim.LayerBounds.Max.Y = b.Dy()
@@ -104,6 +109,32 @@ func toLayer(m image.Image) limage.Layer {
 	}
 }
 
+// tooDeep determines whether groups are nested deeper than Decode will read.
+func tooDeep(l limage.Layer, depth int) bool {
+	var group limage.Image
+
+	switch im := l.Image.(type) {
+	case limage.Image:
+		group = im
+	case *limage.Image:
+		group = *im
+	default:
+		return false
+	}
+
+	if depth == 0 {
+		return true
+	}
+
+	for _, l := range group {
+		if tooDeep(l, depth-1) {
+			return true
+		}
+	}
+
+	return false
+}
+
 func writeImage(e *xml.Encoder, zw *zip.Writer, m image.Image, lim limage.Layer) error {
 	var fw io.Writer
 
-- 
2.43.0


From f5af8485d2d76068f89cde996bae311a6b98e7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:57 +0000
Subject: [PATCH 71/72] fix: ora: store of each layer what it shows of its
 picture

---
 ora/encode.go | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index af61034..2ad5d4e 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -44,7 +44,7 @@ func Encode(w io.Writer, m image.Image) error {
 		return err
 	} else if _, err = fw.Write([]byte(mimetypeStr)); err != nil {
 		return err
-	} else if _, err = writeLayers(zw, lim, 0); err != nil {
+	} else if _, err = writeLayers(zw, lim, origin(m), 0); err != nil {
 		return err
 	} else if fw, err = zw.Create("stack.xml"); err != nil {
 		return err
@@ -169,7 +169,27 @@ func writeImage(e *xml.Encoder, zw *zip.Writer, m image.Image, lim limage.Layer)
 	return png.Encode(fw, m)
 }
 
-func writeLayers(zw *zip.Writer, lim limage.Layer, layerNum int) (int, error) {
+// origin is where the pictures of the outermost layers start, which is the
+// corner of the layer, unless it is made of a plain image.
+func origin(m image.Image) image.Point {
+	if _, ok := m.(limage.Image); ok {
+		return image.Point{}
+	}
+
+	return m.Bounds().Min
+}
+
+// picture is what a layer shows of its image.
+type picture struct {
+	image.Image
+	rect image.Rectangle
+}
+
+func (p picture) Bounds() image.Rectangle {
+	return p.rect
+}
+
+func writeLayers(zw *zip.Writer, lim limage.Layer, origin image.Point, layerNum int) (int, error) {
 	var (
 		err error
 		f   io.Writer
@@ -177,9 +197,9 @@ func writeLayers(zw *zip.Writer, lim limage.Layer, layerNum int) (int, error) {
 
 	switch im := lim.Image.(type) {
 	case limage.Image:
-		layerNum, err = writeGroup(zw, im, layerNum)
+		layerNum, err = writeGroup(zw, im, origin, layerNum)
 	case *limage.Image:
-		layerNum, err = writeGroup(zw, *im, layerNum)
+		layerNum, err = writeGroup(zw, *im, origin, layerNum)
 	// case limage.Text, *limage.Text: // text is not yet in the spec
 	default:
 		layerNum++
@@ -189,6 +209,10 @@ func writeLayers(zw *zip.Writer, lim limage.Layer, layerNum int) (int, error) {
 			return 0, err
 		}
 
+		if r := (image.Rectangle{Max: lim.LayerBounds.Size()}).Add(origin); r != lim.Image.Bounds() {
+			lim.Image = picture{Image: lim.Image, rect: r}
+		}
+
 		err = png.Encode(f, lim.Image)
 		if err != nil {
 			return 0, err
@@ -198,11 +222,11 @@ func writeLayers(zw *zip.Writer, lim limage.Layer, layerNum int) (int, error) {
 	return layerNum, err
 }
 
-func writeGroup(zw *zip.Writer, lim limage.Image, layerNum int) (int, error) {
+func writeGroup(zw *zip.Writer, lim limage.Image, origin image.Point, layerNum int) (int, error) {
 	var err error
 
 	for _, l := range lim {
-		layerNum, err = writeLayers(zw, l, layerNum)
+		layerNum, err = writeLayers(zw, l, origin, layerNum)
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From da822cf007d0123eceef0f41ecf6678f9dba10a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:38 +0000
Subject: [PATCH 72/72] fix: ora: store grey pictures with a mask or with
 coloured layers in colour

---
 ora/encode.go | 58 ++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 50 insertions(+), 8 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index 2ad5d4e..f96b6f4 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -4,6 +4,7 @@ import (
 	"archive/zip"
 	"encoding/xml"
 	"image"
+	"image/color"
 	"image/png"
 	"io"
 	"strconv"
@@ -150,7 +151,7 @@ func writeImage(e *xml.Encoder, zw *zip.Writer, m image.Image, lim limage.Layer)
 		return err
 	} else if fw, err = zw.Create("mergedimage.png"); err != nil {
 		return err
-	} else if err = png.Encode(fw, m); err != nil {
+	} else if err = encode(fw, m, m.Bounds()); err != nil {
 		return err
 	} else if fw, err = zw.Create("Thumbnails/thumbnail.png"); err != nil {
 		return err
@@ -166,7 +167,7 @@ func writeImage(e *xml.Encoder, zw *zip.Writer, m image.Image, lim limage.Layer)
 		m = thumbnail{Image: m, scale: scale}
 	}
 
-	return png.Encode(fw, m)
+	return encode(fw, m, m.Bounds())
 }
 
 // origin is where the pictures of the outermost layers start, which is the
@@ -182,13 +183,58 @@ func origin(m image.Image) image.Point {
 // picture is what a layer shows of its image.
 type picture struct {
 	image.Image
-	rect image.Rectangle
+	rect  image.Rectangle
+	model color.Model
 }
 
 func (p picture) Bounds() image.Rectangle {
 	return p.rect
 }
 
+func (p picture) ColorModel() color.Model {
+	return p.model
+}
+
+// modelOf returns a colour model that holds for all that is shown of an image,
+// which that of a grey image with a mask, or with layers of colour, does not.
+func modelOf(m image.Image, r image.Rectangle) (model color.Model, changed bool) {
+	model = m.ColorModel()
+
+	switch m.(type) {
+	case *image.Gray, *image.Gray16:
+		return model, false
+	}
+
+	wide := color.NRGBAModel
+
+	switch model {
+	case color.GrayModel:
+	case color.Gray16Model:
+		wide = color.NRGBA64Model
+	default:
+		return model, false
+	}
+
+	for y := r.Min.Y; y < r.Max.Y; y++ {
+		for x := r.Min.X; x < r.Max.X; x++ {
+			if r, g, b, a := m.At(x, y).RGBA(); r != g || r != b || a != 0xffff {
+				return wide, true
+			}
+		}
+	}
+
+	return model, false
+}
+
+// encode writes the portion of an image that is within a rectangle.
+func encode(w io.Writer, m image.Image, r image.Rectangle) error {
+	if model, changed := modelOf(m, r); changed || r != m.Bounds() {
+		m = picture{Image: m, rect: r, model: model}
+	}
+
+	return png.Encode(w, m)
+}
+
 func writeLayers(zw *zip.Writer, lim limage.Layer, origin image.Point, layerNum int) (int, error) {
 	var (
 		err error
@@ -209,11 +255,7 @@ func writeLayers(zw *zip.Writer, lim limage.Layer, origin image.Point, layerNum
 			return 0, err
 		}
 
-		if r := (image.Rectangle{Max: lim.LayerBounds.Size()}).Add(origin); r != lim.Image.Bounds() {
-			lim.Image = picture{Image: lim.Image, rect: r}
-		}
-
-		err = png.Encode(f, lim.Image)
+		err = encode(f, lim.Image, image.Rectangle{Max: lim.LayerBounds.Size()}.Add(origin))
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0

