#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
PSD=["psd.go","layer.go","imageres.go","util.go","compress.go","compress_other.go","compress_wasm_js.go"]
p("C01","The reported read count is the number of bytes taken from the reader",
 "Whenever decoding a header or a whole document succeeds, the byte count it returns equals the number of bytes actually consumed from the reader. This holds for every combination of optional sections, paddings, large-document lengths, compression methods and skip options.",
 ["inputs","configurations"],"every input and option set on which decoding succeeds",
 "The tests compare no returned count at all, and only decode a dozen well formed files; every optional branch has its own bookkeeping.",
 PSD,[("accounting of read","Decode, DecodeConfig, readImageResource, readLayerAndMaskInfo, readLayerInfo, readLayerExtraData"),("low level readers","discard, readBytes, readPascalString, adjustAlign2/4, decodeZLIB, decodePackBits")])
p("C02","Length-prefixed sections are consumed exactly to their declared end",
 "On success, each length-prefixed part of the file (colour mode data, image resources, layer and mask section, layer info, layer record extra data, mask data, blending ranges, additional info blocks, channel data) is consumed exactly up to the end its own length field declares, so that the following part is read from the right offset. A section whose contents disagree with its declared length yields an error instead of a silently shifted parse.",
 ["inputs"],"every input, including inconsistent nested lengths, normal and large documents",
 "Test files are well formed, so the early exits (absent optional fields, padding, unknown trailing data) are hardly reached, and a mis-positioned reader often still decodes.",
 PSD,[("section ends","readImageResource, readLayerAndMaskInfo, readLayerInfo, readLayerImage, readLayerExtraData, readLayerMaskAndAdjustmentLayerData, readAdditionalLayerInfo")])
p("C03","Malformed input produces an error, never a panic or endless loop",
 "For any byte sequence from any reader, decoding a configuration or a document returns normally, either with a result or with an error: no index or slice out of range, nil dereference, negative allocation, failed type assertion, explicit panic, unbounded recursion or endless loop. Exhaustion of memory by huge declared sizes is outside this property.",
 ["inputs"],"every byte sequence of any length and every reader behaviour",
 "Tests only feed valid files; a panic needs one particular inconsistent length, count, depth or colour mode.",
 PSD+["picker.go","colormode.go"],[("index and slice sites","all of the decoder"),("nil pickers","findPicker, findGrayPicker, makePicker")])
p("C04","No failure of the reader, the decompressor or a callback is swallowed",
 "If any read, skip, decompression or configuration callback that the decoder performs reports an error, the decoding call returns a non-nil error and no document. No partially read data is ever presented as a success.",
 ["fault_sequences","inputs"],"every point at which an underlying operation can fail",
 "Tests use in-memory readers over complete files, which never fail.",
 PSD+["psdexporter/main.go"],[("error propagation","every call in the decoder whose callee returns an error")])
p("C05","The result does not depend on how the reader delivers its bytes",
 "Decoding gives the same result, count and error class for any reader that delivers the same bytes, whether it returns short reads, supports seeking, supports discarding or neither. In particular skipping never moves past the end of the data silently and never moves backwards.",
 ["inputs","schedules"],"every chunking of the same bytes and every subset of optional reader interfaces",
 "Tests read from files and byte buffers only; short reads and readers with unusual method sets do not occur.",
 ["util.go","psd.go","layer.go","imageres.go","compress.go","compress_other.go"],[("full reads","every use of the reader"),("skipping","discard")])
p("C06","Parallel work is split so that every row, line or tile is done exactly once",
 "For any worker count and any amount of work, the ranges handed to the workers are disjoint and together cover exactly the rows, lines, tiles or items to be processed, and each worker gets source, destination and mask positions of the same rows. The result therefore does not depend on the number of CPUs.",
 ["configurations","inputs"],"every worker count of at least one and every size, including sizes not divisible by the worker count and both traversal directions",
 "Tests run with the CPU count of the machine on a few sizes; a band split error needs a particular remainder or direction.",
 ["compress_other.go","blend/draw.go","composite/layer.go","composite/layerimage.go","composite/renderer.go","composite/thumbnail.go"],
 [("band splitting","decodePackBits, Parallel (x3), Render, newTiledImage, newTiledMask, Transform, Thumbnails, ThumbnailSheet, render")])
p("C07","Workers are joined and share no unsynchronised mutable state",
 "Every goroutine started during decoding, drawing, rendering or thumbnail creation is waited for before its results are used, each signals completion exactly once on every path, and no variable or map is written by one while another may touch it without a lock or a join in between.",
 ["schedules"],"every interleaving of the worker goroutines",
 "A missing join or an unprotected write shows only under rare interleavings, and the tests do not run under the race detector.",
 ["compress_other.go","blend/draw.go","composite/context.go","composite/layer.go","composite/layerimage.go","composite/renderer.go","composite/thumbnail.go"],
 [("fork and join","every go statement and its WaitGroup"),("shared results","errs, tile maps, thumbnail maps, layer image maps")])
p("C08","Debug logging is optional and never changes the result",
 "With no debug logger installed, decoding never uses it. With one installed, decoding produces the same document, count and error, and consumes the same bytes.",
 ["configurations","inputs"],"every input, with and without a logger",
 "The tests run with one setting of the logger; an unguarded use or a side effect inside a logging block shows only on the path it sits on.",
 ["psd.go","layer.go","imageres.go","util.go"],[("guards","every use of the Debug logger")])
p("C09","Every pixel accessor returns the samples of that pixel from the right channels",
 "For every supported colour mode and depth, with and without alpha, the colour reported at a position is made of exactly that pixel's samples, each taken from its own channel in file order with the bit depth's byte order. No position inside the bounds makes the accessor panic.",
 ["inputs","configurations"],"every colour mode and depth, every rectangle including negative origins, every pixel inside it",
 "The tests decode one or two images per kind with an origin of zero and compare a digest of a few; each of the accessors has its own index arithmetic.",
 ["picker.go","psd.go","layer.go","color/color.go"],[("accessors","At of every picker"),("channel wiring","setSource of every picker, Decode, readLayerImage")])
p("C10","Fields are decoded from the documented offset, width, byte order and sign",
 "Version, channel count, dimensions, depth, colour mode, layer rectangle, channel ids and lengths, blend mode, opacity, clipping, flags, mask rectangles and parameters and section divider settings are taken from the byte positions the format documents, big-endian, with signed values sign-extended and four-byte or eight-byte lengths chosen by document version. Each decoded value lands in the public field of that meaning.",
 ["inputs"],"every value of every field, normal and large documents",
 "Test files hold a few values per field; sign, width and offset mistakes often agree on small positive values.",
 ["psd.go","layer.go","imageres.go","util.go"],[("header","DecodeConfig"),("layer records","readLayerInfo, readLayerExtraData, readLayerMaskAndAdjustmentLayerData, readSectionDividerSetting")])
p("C11","Decode options and callbacks are honoured exactly",
 "Skipping the merged image or the layer images leaves out exactly that part; the configuration callback is called exactly once, with the decoded header, before anything after the header is read, and its error aborts decoding; the layer callback is called once per layer, in order, with its index and the total, after that layer's channels and image are set. A missing options value means the defaults.",
 ["configurations","inputs"],"every option combination and document",
 "The tests use two option combinations and only record that a callback ran.",
 ["psd.go","layer.go"],[("options","Decode, readLayerInfo, readLayerImage")])
p("C12","The layer tree holds every image and group layer once, in order, or fails",
 "From the flat list of layer records the tree is built so that every layer appears exactly once, in file order, under the innermost group whose records enclose it, only the group end markers being dropped. An unbalanced list yields an error.",
 ["inputs"],"every sequence of layer kinds, of any length and nesting",
 "The tests check one nested file.",
 ["layer.go"],[("tree","buildTree")])
p("C13","Identifier tables are total, unambiguous and agree with the format",
 "Each documented blend mode key maps to its own distinct name and no other, each documented additional-info key has the length width the format prescribes for large documents, each colour mode reports its own number of colour channels, and both document versions are registered with the standard image registry under their own signature.",
 ["inputs"],"every identifier",
 "The tests touch a handful of identifiers; a duplicated, missing or swapped entry is invisible otherwise.",
 ["blendmode.go","psd.go","colormode.go","layer.go"],[("names","BlendMode.String"),("length widths","LenSize"),("channels","ColorMode.Channels"),("registration","init")])
p("C14","Header validation accepts exactly the documented ranges",
 "A header is accepted only with the right signature, version 1 or 2, 1 to 56 channels, depth 1, 8, 16 or 32 and width and height from 1 to 30000 (version 1) or 300000 (version 2); a header within these limits is never rejected by those checks.",
 ["inputs"],"every header",
 "Tests use valid files of small dimensions only.",
 ["psd.go"],[("validation","DecodeConfig")])
p("C15","Every colour value satisfies the standard colour contract",
 "For every value of every colour type, the reported red, green, blue and alpha lie between 0 and 65535 and red, green and blue do not exceed alpha. This includes floating point values outside 0 to 1, infinities and not-a-number.",
 ["inputs"],"every bit pattern of every colour type",
 "One test converts a couple of values.",
 ["color/color.go"],[("conversions","RGBA of every colour type")])
p("C16","Colour models convert any colour into their own type without panicking",
 "For every input colour each colour model returns a value of the model's own type, returns values already of that type unchanged, and neither divides by zero nor lets an intermediate wrap around, even for fully transparent or black input.",
 ["inputs"],"every colour of every type",
 "One test converts a couple of values.",
 ["color/color.go"],[("conversions","the model functions")])
p("C17","Drawing never divides by zero or indexes a table out of range",
 "No pixel kernel, blend helper or colour computation divides an integer by zero, shifts by a negative amount or indexes a lookup table out of range, for any pixel values, masks and opacities.",
 ["inputs"],"every combination of source, destination and mask samples",
 "The kernels are generated for each mode and format pair; the tests draw random images with a few.",
 ["blend/zblends.go","blend/zporterduffs.go","blend/util.go"],[("divisions and table lookups","all kernels")])
p("C18","The colour channels of every kernel are computed by the same formula",
 "In every drawing kernel of a separable blend mode or compositing operator, the formula of each colour channel is the same one with only that channel's source and destination samples replaced, and each result is stored to its own channel.",
 ["inputs"],"every kernel and every pixel value",
 "The kernels are about twenty thousand generated lines; a single swapped channel in one of several hundred kernels is not sampled.",
 ["blend/zblends.go","blend/zporterduffs.go"],[("kernels","all draw functions")])
p("C19","A mode's kernels for different pixel formats compute the same formula",
 "For each blend mode and compositing operator, the kernels specialised for particular source and destination pixel formats implement the same formula as one another once the conversions of the formats are accounted for.",
 ["inputs"],"every mode, every format pair, every pixel value",
 "Each test compares a few pixels per mode against recorded results.",
 ["blend/zblends.go","blend/zporterduffs.go"],[("kernels","all draw functions")])
p("C20","Drawing touches only the clipped region, with source and destination in step",
 "A drawing operation modifies only destination pixels inside the requested rectangle intersected with the destination, source and mask bounds; each destination pixel is combined with the source and mask pixel at the same offset from their start points, whether traversed forwards or backwards.",
 ["inputs"],"every rectangle, start point, image bounds and overlap",
 "Tests draw a few rectangles at a few positions.",
 ["blend/draw.go","blend/util.go","blend/zblends.go","blend/zporterduffs.go"],[("clipping and dispatch","clip, drawMask"),("row and pixel stepping","prepare4to4, prepare1to4, fallback loops")])
p("C21","Each mode accepts every image type through one dispatch without mixing them up",
 "For every combination of source, destination and mask type, drawing is routed to the implementation for exactly that combination and the same mode, passing on the same images, region and start points.",
 ["inputs","configurations"],"every combination of concrete image types",
 "Tests use a few combinations.",
 ["blend/draw.go","blend/zblends.go","blend/zporterduffs.go"],[("dispatch","drawMask"),("mode methods","every drawer")])
p("C22","A cancelled render leaves no tile marked as rendered",
 "If rendering is cancelled, every tile recorded as up to date during that call is forgotten again, so that the next render recomputes it.",
 ["schedules","histories"],"every point at which cancellation can strike",
 "Cancellation at a particular tile is not exercised by any test.",
 ["composite/renderer.go"],[("change list","updateCache, changeList.Add, render")])
p("C23","A change to a layer invalidates every cached ancestor up to the root",
 "Marking a layer as changed makes the affected tiles of the layer itself, its clipping base and every enclosing group up to the root be recomputed, together with pass-through groups that show it through; a mark made while a render is running takes effect after it.",
 ["histories","schedules"],"every tree shape, every layer, every ordering of marks and renders",
 "No test marks a layer and renders again.",
 ["composite/renderer.go","composite/layer.go","composite/builder.go","composite/cloner.go"],[("invalidation","setDirtyByLayerRecursive, setDirtyByLayerPassThrough, SetDirtyByLayer"),("parent links","New, buildLayer, clone")])
p("C24","Decoded layer pixels are never modified by rendering",
 "Tile images and masks taken from the document are only read after construction, so that clones, thumbnails and repeated renders that share them always see the same pixels.",
 ["histories","schedules"],"every sequence of renders, thumbnails, clones and transforms",
 "A single write through a shared image shows only in a later, different operation.",
 ["composite/renderer.go","composite/layerimage.go","composite/cloner.go","composite/thumbnail.go"],[("draw destinations","every drawing call of the compositor")])
p("C25","Every layer blend mode of the format renders",
 "For every blend mode value a layer can carry, including ones without a dedicated implementation, rendering selects a drawing mode and never fails; every mode with an implementation of its own is bound to that implementation (linear dodge, which Photoshop names \"Linear Dodge (Add)\", to the additive one) and no two of them share one. A layer or group is drawn with the blend mode and opacity of its own record.",
 ["inputs"],"every blend mode value",
 "No test renders most modes.",
 ["composite/draw.go","blendmode.go"],[("mode table","blendModes, drawWithOpacity")])
p("C26","Cancelling a build, transform or render always returns",
 "Whatever the timing of cancellation or of a failure, creating a tree, transforming it, rendering and making thumbnails return: no worker, feeder or waiter is left blocked for ever, and an operation cut short is reported as aborted.",
 ["schedules","fault_sequences"],"every moment of cancellation and every worker failure",
 "Tests never cancel.",
 ["composite/context.go","composite/layer.go","composite/renderer.go","composite/thumbnail.go"],[("channel feed","createCanvas"),("waiting","parallelContext.Wait")])
p("C27","Locks are released on every path and never taken twice",
 "Every lock the compositor takes is released on every path out of the code that took it, is never requested again by the goroutine that already holds it, and locks are taken in one global order.",
 ["schedules"],"every path and interleaving",
 "A lock leak or inversion needs a particular early exit or interleaving.",
 ["composite/renderer.go","composite/layer.go","composite/layerimage.go","composite/context.go"],[("lock pairs","every Lock and RLock")])
p("C28","Pooled tile buffers are clean when reused and never used after return",
 "A buffer obtained from the pool is all zero, is returned at most once, and is not read or written after it has been returned.",
 ["histories","schedules"],"every path through drawing",
 "A stale pixel shows only when a dirty buffer happens to be reused.",
 ["composite/renderer.go"],[("pool","getBuffer, putBuffer, drawLayer, updateTile")])
p("C29","Tile grids are aligned for negative coordinates too",
 "Every traversal of tiles starts at a multiple of the tile size that is at most the region's minimum, also for negative coordinates, so that tiles made from layers, masks and the canvas have the same grid; every sample of a layer or mask that lies in a tile is stored in that tile at its own position, and every operation on a tile uses that tile's position.",
 ["inputs"],"every layer, mask and canvas rectangle and tile size",
 "Tests use no layers with negative coordinates.",
 ["composite/layerimage.go","composite/renderer.go"],[("grid origin","newTiledImage, newTiledMask, Render, render")])
p("C30","Recorded numeric accuracy of the blend modes",
 "The result of every blend mode equals the reference compositing formula of the format, rounded to the nearest representable value.",
 ["inputs"],"every mode and pixel value",
 "Tests compare a few pixels.",
 ["blend/zblends.go"],[("formulas","all kernels")])
p("C31","Compressed channel data round-trips",
 "Data compressed by a conforming run-length or deflate encoder decodes to exactly the original samples.",
 ["inputs"],"every sample sequence and every valid encoding of it",
 "Tests decode a few files.",
 ["compress.go","compress_other.go"],[("decoders","decodePackBitsPerLine, decodeZLIB, decodeDelta")])
p("C32","Thumbnails show the whole visible part of a layer",
 "A thumbnail contains the bounding box of all visible pixels, scaled with its aspect ratio, and no more.",
 ["inputs"],"every layer image and size",
 "No test creates a thumbnail.",
 ["composite/thumbnail.go"],[("trimming","trimUnusedArea, Thumbnail")])
if __name__=="__main__":
    for x in P: print(json.dumps(x,ensure_ascii=False))
