#!/usr/bin/env python3
# Writes /verif/properties.jsonl. The properties are edited here.
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("C01","Every colour handed out is a valid, self-consistent colour",
"Every colour produced by the library's colour types (RGB, grey+alpha, HSV, HSL), by blending, or by reading a pixel of a library image is a valid alpha-premultiplied colour: no component exceeds the alpha and nothing exceeds 0xffff. The straight (non-premultiplied) form and the premultiplied form of one colour describe the same colour to within rounding. 8-bit components expand so that 255 is exactly full intensity and 0 exactly none.",
["inputs"],"every component value of every colour type; every pixel of every image kind; every pair of colours in every blend mode",
"lcolor and the root package have no tests; the tests of ora and xcf only ever see a handful of opaque primary colours, never partial alpha.",
["lcolor/gray.go","lcolor/rgb.go","lcolor/hsl.go","internal/nrgba.go","misc.go","composite.go"],
[("RGBA / ToNRGBA of each colour type","lcolor"),("ColourToNRGBA","internal/nrgba.go")],
["color.Color.RGBA()","ToNRGBA()","image.Image.At"])

prop("C02","HSV and HSL conversions follow their definitions and invert",
"Converting a colour to HSV or HSL gives the hue, saturation, value or lightness, and alpha that the standard definitions give, with the full circle and full intensity scaled to 16 bits. Converting any HSV or HSL value to RGB follows the standard definition too, and a colour converted there and back is the original to within less than one 8-bit step per channel, alpha exactly.",
["inputs"],"all RGB colours (8-bit cube and 16-bit samples, sector and saturation boundaries) and all HSV/HSL values, any alpha",
"no test touches lcolor's conversions; the errors live in particular hue sectors, lightness halves and overflow corners.",
["lcolor/hsl.go"],[("RGBToHSL, RGBToHSV","lcolor/hsl.go"),("HSLA.ToNRGBA, HSVA.ToNRGBA","lcolor/hsl.go")],
["lcolor.RGBToHSV","lcolor.RGBToHSL","HSVA.ToNRGBA","HSLA.ToNRGBA"])

prop("C03","Colour models convert idempotently and keep colour and alpha",
"Converting with the RGB, grey+alpha or alpha-palette model always yields a colour of that model, and converting the result again changes nothing; a colour already of the model is returned unchanged. Grey+alpha and alpha-palette conversion keep the alpha and judge the colour itself, independently of how transparent it is: the grey level is the luminance of the straight colour, and the palette entry is the one nearest to it. RGB conversion yields the colour as it looks over black.",
["inputs"],"every source colour and alpha, every palette of 1 to 256 opaque entries",
"no test converts a translucent colour or uses an alpha palette at all.",
["lcolor/gray.go","lcolor/rgb.go","lcolor/indexed.go","lcolor/models.go"],
[("GrayAlphaModel, RGBModel","lcolor/models.go"),("AlphaPalette.Convert / Index","lcolor/indexed.go")],
["color.Model.Convert","AlphaPalette.Index"])

prop("C04","Separable blend modes follow their formula in every channel",
"With b the bottom and t the top channel in [0,1], each of red, green and blue is computed from that same channel of both colours: Multiply bt, Screen 1-(1-b)(1-t), Overlay and Soft Light (1-t)b^2+t(1-(1-b)^2), Difference |b-t|, Addition b+t, Subtract b-t, Darken Only min, Lighten Only max, Divide b/t, Dodge b/(1-t), Burn 1-(1-b)/t, Hard Light 2bt for t<1/2 else 1-2(1-b)(1-t), Grain Extract b-t+1/2, Grain Merge b+t-1/2, each clamped to [0,1], with 0/0 in Divide and Dodge giving 0 and in Burn giving 1. That value is painted over the bottom with an opacity of the smaller of the two alphas, relative to the bottom's alpha as in ordinary source-over mixing, and the result keeps the bottom's alpha. A fully transparent bottom stays fully transparent and a fully transparent top changes nothing.",
["inputs"],"every pair of straight 16-bit colours with any alphas, for the 15 separable modes",
"no test composites anything but CompositeNormal implicitly; the formulas have boundary cases (division by zero, clamping, 1/2) and must hold for all channel and alpha combinations.",
["composite.go"],[("Composite.Composite and the per-mode channel functions","composite.go"),("blend","composite.go")],
["limage.Composite.Composite"])

prop("C05","Hue, saturation, colour, value and luminosity blends take the right part",
"Hue, Saturation and Value replace respectively the HSV hue, saturation and value of the bottom colour by the top's; Color takes the top's HSL hue and saturation with the bottom's lightness, and Luminosity the bottom's hue and saturation with the top's lightness; a grey top leaves the colour unchanged in Hue mode. As in the separable modes, the new colour is painted over the bottom with an opacity of the smaller alpha and the result keeps the bottom's alpha. So a fully transparent bottom stays transparent and a fully transparent top changes nothing.",
["inputs"],"every pair of straight 16-bit colours with any alphas, for the five modes",
"no test reaches these modes; a fault shows only for particular hues, lightness halves or partial alpha.",
["composite.go","lcolor/hsl.go"],[("compositeHue/Saturation/Color/Value","composite.go")],["limage.Composite.Composite"])

prop("C06","Alpha compositing modes obey the Porter-Duff rules",
"Normal is source-over; Plus adds premultiplied colours and alphas, clamped; Destination In and Destination Out keep the bottom's colour with its alpha scaled by the top's alpha or by its complement; Source Atop and Destination Atop mix the two colours by the alpha of the one that lies on top and keep the alpha of the other. Dissolve gives either the top made opaque or the bottom unchanged, the top with a probability equal to its alpha. Behind never alters an opaque bottom, and every mode without a formula of its own, including unknown values, acts as Normal.",
["inputs","histories"],"every pair of colours and alphas; long runs of repeated Dissolve draws; every mode number",
"tests only composite opaque colours; probabilities and partial alphas cannot be sampled by a few fixed pixels.",
["composite.go"],[("compositeNormal, compositeDissolve, compositeDstIn ...","composite.go")],["limage.Composite.Composite"])

prop("C07","A blend depends only on the two colours, not how they are written",
"For every mode except Dissolve, blending gives the same result each time and whatever Go colour type carries the same colour (8- or 16-bit, straight or premultiplied, RGB, grey, HSV or HSL), to within rounding. Blending never panics, for any colours and any mode value.",
["inputs"],"every mode, every pair of colours, every pair of representations of those colours",
"tests use one representation per pixel and opaque colours only.",
["composite.go","internal/nrgba.go","lcolor"],[("ColourToNRGBA","internal/nrgba.go")],["limage.Composite.Composite"])

prop("C08","Pixel images behave as rectangular stores of pixels",
"In RGB, grey+alpha and paletted+alpha images with any bounds, a pixel reads back as the last colour set there converted by the image's colour model (or the raw value, for raw setters), and no other pixel changes; reads outside the bounds give a zero, transparent or black pixel, and writes outside do nothing. A sub-image has the intersected bounds, uses the same coordinates, and shares its pixels with its parent in both directions. PixOffset tells, for a pixel within the bounds, where in Pix it is.",
["inputs","histories"],"every bounds rectangle (any origin, including negative), every history of sets through an image and its nested sub-images",
"no test constructs these image types directly, and an aliasing or offset fault needs a non-zero origin, a sub-image and a particular sequence of writes.",
["rgb.go","grayalpha.go","indexedalpha.go"],[("PixOffset, Set*, *At, SubImage","rgb.go, grayalpha.go, indexedalpha.go")],["At/Set/SubImage of RGB, GrayAlpha, PalettedAlpha"])

prop("C09","Opaque tells the truth about the visible pixels",
"Opaque on an RGB, grey+alpha or paletted+alpha image or any of its sub-images returns true exactly when every pixel inside that image's own bounds has full alpha.",
["inputs","histories"],"every image content, bounds and sub-image, including those with a single translucent pixel in any position inside or outside the sub-image",
"no test calls Opaque; PNG writing relies on it to decide whether alpha is stored, so an error silently drops transparency.",
["grayalpha.go","indexedalpha.go","rgb.go"],[("Opaque","grayalpha.go, indexedalpha.go, rgb.go")],["Opaque()"])

prop("C10","Flattening stacks visible layers bottom to top at their offsets",
"A pixel of a layered image is the result of blending, from the last layer up to the first over transparency, each visible layer whose bounds contain the point, using the layer's mode and its own pixel at the point relative to the layer's origin, with groups flattened the same way recursively; in an image whose colour model is a color.Palette a layer pixel instead replaces what is below when it is more than half opaque and is ignored otherwise (Dissolve excepted). Hidden layers and layers that do not reach the point have no effect. The bounds of a layered image are the union of its layers' bounds.",
["inputs"],"every tree of layers: counts, nesting, offsets, sizes, modes, visibility, opacity, pixel kinds, and every point inside or outside",
"the tests compare decoded layers one by one and never read a pixel of a flattened multi-layer image.",
["image.go","layer.go","composite.go"],[("Image.At","image.go"),("Layer.At","layer.go"),("Image.Bounds","image.go")],["limage.Image.At","limage.Image.Bounds"])

prop("C11","A sub-image of a layered image shows the same picture",
"For every rectangle, the sub-image of a layer or layered image shows at every point inside the rectangle exactly the pixel the original shows there, contains nothing outside the rectangle, and follows later changes to the original's pixels. Names, modes, visibility, opacity, masks and text of the layers are kept, and the original is not changed.",
["inputs","histories"],"every layer tree and every rectangle, inside, overlapping or outside, nested sub-images of sub-images, and later writes to the underlying pixels",
"no test takes a sub-image; an offset fault only shows when the rectangle cuts into a layer from the left or top.",
["layer.go","image.go"],[("SubImage, SubImageLayer","layer.go, image.go")],["Image.SubImage","Layer.SubImage","Layer.SubImageLayer"])

prop("C12","Layer opacity and masks scale alpha and nothing else",
"A layer's pixel is its image's pixel with the alpha multiplied by (255-Transparency)/255, and a masked image's pixel is its image's pixel with the alpha multiplied by the mask's grey level over 255; the straight colour is unchanged. Full opacity or a white mask returns the pixel unchanged, full transparency, a black mask or a point outside the mask returns a fully transparent pixel. A text layer shows its image, and its text data read as a string is its pieces joined in order.",
["inputs"],"all 256 levels of opacity and mask, every pixel colour and alpha, every kind of underlying image",
"tests use fully opaque layers and never read through a mask.",
["misc.go","layer.go"],[("transparency","misc.go"),("MaskedImage.At","misc.go"),("Layer.At","layer.go"),("TextData.String","misc.go")],["Layer.At","MaskedImage.At","TextData.String"])

prop("C13","An image written as ORA reads back as the same layered image",
"Decoding what Encode wrote gives the same tree of layers in the same order with the same names, visibility, opacity, positions, pixels (as PNG stores them) and, for modes OpenRaster can express, blend modes; other modes come back as Normal. The pixels of a layer are those it shows of its picture, through its mask if it has one, over the whole of the layer, also where the picture does not start at the origin or is not of the layer's size. This holds for nested groups at any offset and for an image whose bounds do not start at the origin, which comes back moved so that they do. A plain image or a single layer comes back as an image with that one layer.",
["inputs"],"every layer tree whose layers are not empty and show nothing random",
"ora's encode test cannot be built in the pinned environment and covers five images with opaque layers, one group at the origin and only Normal mode.",
["ora/encode.go","ora/decode.go","ora/stack.go"],[("writeStack / processLayerAttrs","ora/encode.go, ora/stack.go"),("writeLayers numbering","ora/encode.go")],["ora.Encode","ora.Decode"])

prop("C14","Encoded ORA files are valid OpenRaster containers",
"Every file Encode produces is a readable zip whose first entry is an uncompressed 'mimetype' holding exactly image/openraster, with stack.xml, mergedimage.png, Thumbnails/thumbnail.png and one PNG per leaf layer, and no duplicated entry names. stack.xml is well-formed, declares a version of OpenRaster and the canvas size, has one root stack, no duplicated attributes, opacity as a number in 0..1, visibility visible or hidden, composite-op values OpenRaster defines, and every layer's src names an entry that exists, distinct for distinct layers and holding that layer's picture. Each element carries its layer's name, position within its group, visibility, opacity and mode.",
["inputs"],"every layered or plain image, including names with any XML-legal characters",
"no runnable test inspects an encoded file; the round trip through the package's own decoder hides errors the two share.",
["ora/encode.go","ora/thumbnail.go"],[("Encode, writeStack, writeLayers","ora/encode.go")],["bytes written by ora.Encode, read by an independent zip/XML/PNG reader"])

prop("C15","The merged image and thumbnail in an ORA file depict the picture",
"mergedimage.png has the size of the image and shows the flattened image pixel for pixel (as PNG stores it, in at least 8 bits), with all its colours and its transparency, whatever colour model the first layer has. The thumbnail is a PNG of at least 1 and at most 256 pixels on each side, keeps the aspect ratio to within a pixel, and each of its pixels shows the picture at the corresponding place; an image of up to 256 by 256 is its own thumbnail.",
["inputs"],"every image size including 1 pixel wide or tall, just around 256, very elongated and large ones, any origin",
"no test opens the merged image or thumbnail, and none encodes an image above 256 pixels.",
["ora/thumbnail.go","ora/encode.go"],[("thumbnail.Bounds/At","ora/thumbnail.go"),("writeImage","ora/encode.go")],["mergedimage.png and Thumbnails/thumbnail.png in the output of ora.Encode"])

prop("C16","Foreign ORA files decode to what OpenRaster says they mean",
"Any valid OpenRaster file, whatever its entry order, compression, attribute order, unknown elements or attributes, decodes to layers in document order with the name, position relative to their group, opacity (to the nearest of 256 levels; beyond 0 or 1, of 0 or 1), visibility, composite-op (unknown ones as Normal) and picture that stack.xml and the sources say. Layer bounds are clipped to the canvas without moving the picture, so the decoded image never extends beyond the canvas and every pixel on the canvas is where the file puts it. Elements other than stack and layer are skipped with their whole contents.",
["inputs"],"every generated stack.xml (nesting, offsets of either sign, all attributes) and archive layout",
"tests decode seven fixed files by one producer, all with layers inside the canvas and groups at the origin.",
["ora/stack.go","ora/decode.go"],[("readStack, readLayer, processLayerAttrs, skipTag","ora/stack.go")],["ora.Decode"])

prop("C17","Malformed ORA files are refused cleanly",
"Decoding any archive terminates, in memory proportionate to its content and the pictures it declares, and returns an error or an image of which every pixel can be read; it never panics or overflows the stack. A missing stack.xml, a wrong mimetype, a stack.xml without a root image element with a width and a height, nesting without end, and a layer without an existing source are reported with the package's errors for them; text where a number is required, broken XML or an undecodable layer picture are errors too.",
["inputs"],"systematic mutations of valid archives (entries dropped, renamed, emptied; XML truncated at every byte, elements and attributes dropped or garbled; pictures corrupted; deep nesting)",
"the tests decode only valid files.",
["ora/decode.go","ora/stack.go"],[("getStack, checkMime, getDimensions","ora/decode.go"),("readLayer","ora/stack.go")],["ora.Decode","ora.DecodeConfig"])

prop("C18","ORA input and output faults are reported, never swallowed",
"If any write to the destination fails, Encode returns a non-nil error, so a nil error means the whole file was written. If any read of the source fails while decoding, or the stored stack.xml or a layer fails its checksum, Decode returns a non-nil error rather than a different image.",
["fault_sequences","crash_points"],"a failure, with or without a partial write, lasting or not, at every byte offset of the output; a read error at every read; a byte changed at every offset of the file",
"tests write to and read from memory without faults.",
["ora/encode.go","ora/decode.go"],[("Encode's zip.Writer close","ora/encode.go"),("Decode","ora/decode.go")],["ora.Encode with a faulty io.Writer","ora.Decode over a faulty io.ReaderAt"])

prop("C19","An image written as XCF reads back as the same layered image",
"Decoding what Encode wrote gives the same tree of layers in the same order with the same names, bounds, visibility and opacity, the same layer masks and, in RGB images, the same blend modes where XCF has them (the bottom layer excepted, which is always Normal or Dissolve); pixels are those of the original in the image's colour model: 8-bit RGBA, grey+alpha, or its palette with alpha. This holds for nested groups, any offsets, an image whose bounds do not start at the origin (which comes back moved so that they do), plain images and single layers, and for files of any size that 32-bit pointers can address.",
["inputs"],"every layer tree in each of the three colour models, any leaf size around the 64-pixel tile boundaries, any pixel run structure",
"xcf cannot be built or tested in the pinned environment; its own tests use five images of one size with uniform opaque colours.",
["xcf/encoder.go","xcf/layer_encode.go","xcf/image_encode.go","xcf/rle.go","xcf/decoder.go","xcf/layer_decode.go","xcf/image_decode.go","xcf/channel.go"],
[("WriteLayers/WriteImage/WriteRLE","xcf"),("readLayers/ReadImage/rle.Read","xcf")],["xcf.Encode","xcf.Decode"])

prop("C20","Text layers keep their text and styling through XCF",
"A text layer written as XCF reads back as a text layer whose pieces have the same text, in order, for any text including quotes, backslashes, line breaks, markup characters and non-ASCII. For text of several pieces each piece also keeps its font, size, colours, bold, italic, underline and strikethrough, letter spacing and rise; for text of a single piece the font, size and colour are kept. The picture of the text layer, and a mask on it, are kept too.",
["inputs"],"every list of styled text pieces with XML-legal characters, sizes, spacings and rises within the format's range and 8-bit opaque colours",
"no test encodes a text layer, and the text fixture file is only read for its dimensions.",
["xcf/text.go","xcf/parasites.go","xcf/layer_encode.go"],[("WriteText / writeTextMarkup","xcf/text.go"),("parseTextData, parasite.Parse","xcf/text.go, xcf/parasites.go")],["xcf.Encode","xcf.Decode"])

prop("C21","Encoded XCF files are structurally sound",
"Read by an independent XCF reader, every file Encode produces has a valid header, the canvas size and base type, terminated property lists with correct lengths, terminated pointer lists whose every pointer leads to a well-formed layer, hierarchy, level, tile or mask, and tiles whose run-length data expands to exactly the tile's size. The bytes written form one file without holes, in which no byte is written twice with different contents and nothing lies outside the structures.",
["inputs","histories"],"every layered or plain image in each colour model; the recorded sequence of positioned writes",
"the package's own decoder is lenient and skips much of what it reads, so a round trip cannot show it.",
["xcf/writer.go","xcf/encoder.go","xcf/layer_encode.go","xcf/image_encode.go","xcf/rle.go"],[("ReservePointers / pointerWriter","xcf/writer.go"),("WriteRLEData","xcf/rle.go")],["io.WriterAt given to xcf.Encode"])

prop("C22","Foreign XCF files decode to what the format says they mean",
"Any valid 8-bit XCF file of versions 0 to 13, with 32- or 64-bit pointers as its version demands, uncompressed or run-length encoded, with any of the format's image and layer properties in any order, decodes to its layers in order with name, offset, visibility, opacity, mode (images that are not RGB have only Normal and Behind), group structure, mask and pixels as stored. Properties the library has no use for (guides, paths, vectors, sample points, resolution, units, parasites, tattoos, locks, colour maps in non-indexed images and unknown ones) change nothing. Layers are clipped to the canvas without moving the picture.",
["inputs"],"every file an independent generator of the format produces: version, base type, alpha, compression, property set and order, layer geometry, run structure",
"tests decode six files of one GIMP version with two or three properties each.",
["xcf/decoder.go","xcf/layer_decode.go","xcf/image_decode.go","xcf/props.go","xcf/skip.go","xcf/rle.go","xcf/channel.go","xcf/parasites.go"],
[("readImageProperties, readProperties","xcf/decoder.go, xcf/layer_decode.go"),("Skip*","xcf/skip.go"),("rle.Read","xcf/rle.go")],["xcf.Decode"])

prop("C23","Deferred decompression shows exactly what eager decoding shows",
"For every XCF file, DecodeCompressed succeeds exactly when Decode does and gives the same layer tree, with images of the same bounds and colour model whose pixels are equal at every point, inside and outside the bounds, in whatever order and however often they are read.",
["inputs","histories"],"every file (each base type with and without alpha, uncompressed and run-length encoded, any size) and every order of pixel reads across tiles",
"the package's compressed test cannot be built here and reads five RGBA images in one scan order.",
["xcf/compressed.go","xcf/image_decode.go","xcf/rle.go"],[("decompressTile cache","xcf/compressed.go"),("readRLE","xcf/rle.go")],["xcf.DecodeCompressed","At of the Compressed* images"],
[("tile","index of the tile now held decompressed","xcf/compressed.go")])

prop("C24","Hostile XCF input is refused cleanly",
"Decoding any byte sequence as XCF terminates, in time and memory proportionate to the file and the picture it describes, and either returns an error or an image of which every pixel can be read; it never panics or ends the process. A wrong signature, unsupported version, unterminated header, out-of-range opacity, unknown compression, invalid boolean, string or group reference, and inconsistent sizes are reported with the package's errors for them.",
["inputs"],"systematic corruption of valid files: every 32-bit field replaced by extreme values, truncations, byte flips, hostile parasites, paths, vectors and text",
"the tests decode only valid files; a panic in the decoder's own goroutines cannot even be recovered by the caller.",
["xcf/decoder.go","xcf/layer_decode.go","xcf/image_decode.go","xcf/parasites.go","xcf/text.go","xcf/skip.go","xcf/reader.go","xcf/rle.go","xcf/compressed.go"],
[("sticky errors and validation","xcf"),("parasite tokeniser","xcf/parasites.go")],["xcf.Decode","xcf.DecodeCompressed","xcf.DecodeConfig"])

prop("C25","XCF input and output faults are reported, never swallowed",
"If any positioned write fails, Encode returns a non-nil error, so a nil error means the whole file was written. If any read of the source fails, decoding returns a non-nil error, and a file cut short anywhere either fails to decode or decodes to the full image, never to a different one.",
["fault_sequences","crash_points"],"a failure at every write call; a failure at every read call; truncation at every length",
"tests read and write memory without faults.",
["xcf/writer.go","xcf/reader.go","xcf/decoder.go","xcf/rle.go","xcf/image_decode.go"],[("sticky errors","xcf/writer.go, xcf/reader.go"),("error joining of layer goroutines","xcf/decoder.go")],["xcf.Encode over a faulty io.WriterAt","xcf.Decode over a faulty io.ReaderAt"])

prop("C26","How the bytes are delivered does not change what is decoded",
"Decoding an XCF through the standard image registry from any random-access or seekable source, wrapped in a buffered reader or not, delivering short reads or not, reporting end-of-file together with or after the last bytes, gives the same image and configuration as decoding the bytes directly. A source that can be neither sought nor read at random is refused with the package's error, and a source whose seek or read fails leads to an error, never to a hang.",
["inputs","fault_sequences","schedules"],"every file crossed with every kind of legal reader, chunking and fault position",
"tests only use in-memory readers that never return short, and never the image registry.",
["internal/bufioToReader.go","xcf/decoder.go","xcf/reader.go"],[("GetReaderAt, readerAt.ReadAt","internal/bufioToReader.go"),("image.RegisterFormat","xcf/decoder.go")],["image.Decode","image.DecodeConfig","xcf.Decode"],
[("readMutex, pos","serialises and tracks the position of a shared seeker","internal/bufioToReader.go")])

prop("C27","The reported configuration matches the file",
"For every ORA and XCF file, valid or written by this library, DecodeConfig succeeds when decoding does, and reports the canvas width and height stored in the file and the colour model of its pixels: NRGBA for ORA and RGB XCF, grey+alpha for grey XCF, and for indexed XCF the file's palette, equal to the palette of the decoded layers. An encoded image's configuration has the size of the image's bounds.",
["inputs"],"every file of either format: versions, base types, property order, sizes and palettes",
"tests check seven files per format, all RGB of one version.",
["ora/decode.go","xcf/decoder.go"],[("DecodeConfig","ora/decode.go, xcf/decoder.go"),("readImageProperties","xcf/decoder.go")],["ora.DecodeConfig","xcf.DecodeConfig"])

prop("C28","Concurrent use is race-free and gives the sequential results",
"Decoding an XCF, whose layers are read concurrently, is free of data races and gives the same image on every run and schedule, with errors as without. Any number of goroutines may at the same time read pixels of one image (decoded eagerly or deferred, flattened or per layer), encode one image, or decode one source, without data races and with the results they would get alone.",
["schedules"],"goroutine interleavings of concurrent At, Encode, Decode and DecodeCompressed over shared images and sources, perturbed with yields inside the source's reads",
"no test runs anything concurrently or under the race detector.",
["xcf/decoder.go","xcf/compressed.go","internal/bufioToReader.go","image.go","ora/encode.go","composite.go"],
[("readLayers goroutines and errLock","xcf/decoder.go"),("readerAt mutex","internal/bufioToReader.go")],["race detector reports","results of concurrent calls"])

prop("C29","Encoding is repeatable and leaves the image untouched",
"Encoding an image as ORA or XCF never changes the image: its layers, their properties, pixels, palettes, masks and text are as before, whether or not the encoding succeeds. Encoding the same image again (no Dissolve layers) gives the same bytes, and decoding an encoded image and encoding it again gives the same layers and pixels.",
["inputs","histories"],"every layered or plain image; repeated encodings, failed encodings and several generations of decode and encode",
"tests encode each image once and never look at the source image again.",
["ora/encode.go","xcf/encoder.go","xcf/layer_encode.go"],[("Encode","ora/encode.go, xcf/encoder.go")],["deep snapshot of the image around Encode","encoded bytes"])

prop("C30","Every blend mode has its own faithful name",
"The string form of each defined blend mode is a non-empty name different from every other mode's, namely that of its constant in words, which is also how the formats call it. A value that is not a defined mode is named Normal, as it is blended.",
["inputs"],"all 42 defined modes and every other 32-bit value",
"no test calls String; the table is positional, so one slip misnames every later mode.",
["composite.go"],[("compositeNames","composite.go")],["Composite.String"])

prop("C31","What a format cannot hold is refused, not written wrong",
"For every image, encoding either returns an error or writes a file that decodes to the same layers; it neither panics nor reports success for a file that cannot be read or shows something else. XCF has no room for names that are not UTF-8 or of 16 MiB and more, palettes of more than 256 colours, offsets from the image's corner beyond 31 bits, sizes beyond 32 bits, and files in which a structure starts beyond 4 GiB; ORA none for an empty canvas or one larger than PNG holds, or groups nested deeper than Decode accepts, 999 in each other (characters in names that XML lacks come back as U+FFFD). Everything up to these limits is stored. Layers whose bounds are inverted are refused or stored as empty ones.",
["inputs"],"every image with a layer, at any depth, whose name, position, size, palette or depth of nesting is at or beyond what the format holds, and files of any size",
"tests encode small ordinary images only.",
["xcf/encoder.go","xcf/layer_encode.go","xcf/image_encode.go","xcf/writer.go","ora/encode.go"],[("Encode, WriteLayer, validSize","xcf/encoder.go, xcf/layer_encode.go"),("WriteString, pointer","xcf/writer.go"),("Encode","ora/encode.go")],["xcf.Encode","ora.Encode"])

prop("C32","An image read from one format can be written as the other without loss",
"For every XCF file that Decode or DecodeCompressed reads and in which no layer lies wholly off the canvas, ora.Encode writes the image, and ora.Decode gives the same tree of layers with the same names, visibility, opacity and positions, the same pixels (as PNG stores them; a group with a mask as the picture it shows) and, where OpenRaster has them, the same blend modes. For every ORA file that Decode reads and that shows anything, xcf.Encode writes the image and both XCF decoders give the same tree of layers, with the same pixels in the colour model of the image. It makes no difference whether deferred layers had been read before, and converting there and back changes nothing further.",
["inputs"],"every well-formed XCF or ORA file of another program without random Dissolve; in XCF files, layers that lie at least partly on the canvas",
"no test reads one format and writes the other; the tests of xcf and ora cannot be built in the pinned environment.",
["ora/encode.go","ora/decode.go","xcf/encoder.go","xcf/layer_encode.go","xcf/decoder.go","xcf/compressed.go"],[("writeLayers","ora/encode.go"),("WriteLayer","xcf/layer_encode.go"),("CompressedRGB.At and the other deferred pictures","xcf/compressed.go")],["xcf.Decode","xcf.DecodeCompressed","xcf.Encode","ora.Decode","ora.Encode"])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P),"properties")
