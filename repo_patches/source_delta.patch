From 61912b110dda2a906ee67053936a39af409f7daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 01/37] fix: read alignment padding completely when the reader
 returns short reads

---
 util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util.go b/util.go
index cddf128..63f5699 100644
--- a/util.go
+++ b/util.go
@@ -97,7 +97,7 @@ func readUnicodeString(b []byte) string {
 func adjustAlign2(r io.Reader, l int) (read int, err error) {
 	if l&1 != 0 {
 		var b [1]byte
-		return r.Read(b[:])
+		return io.ReadFull(r, b[:])
 	}
 	return 0, nil
 }
@@ -105,7 +105,7 @@ func adjustAlign2(r io.Reader, l int) (read int, err error) {
 func adjustAlign4(r io.Reader, l int) (read int, err error) {
 	if gap := l & 3; gap > 0 {
 		var b [4]byte
-		return r.Read(b[:4-gap])
+		return io.ReadFull(r, b[:4-gap])
 	}
 	return 0, nil
 }
-- 
2.43.0


From 50fe15ba8c7a338c29014de6630908e3f9f26571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:36 +0000
Subject: [PATCH 02/37] fix: detect truncated data and unseekable readers when
 skipping data

---
 util.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/util.go b/util.go
index 63f5699..77b3de6 100644
--- a/util.go
+++ b/util.go
@@ -118,14 +118,17 @@ func discard(r io.Reader, skip int) (read int, err error) {
 	case discarder:
 		return rr.Discard(skip)
 	case io.Seeker:
-		if _, err = rr.Seek(int64(skip), 1); err != nil {
-			return 0, err
+		// Seeking beyond the end of the data is not an error,
+		// so leave the last byte to be read to detect truncated data.
+		if skip > 1 {
+			if _, err = rr.Seek(int64(skip-1), io.SeekCurrent); err == nil {
+				read = skip - 1
+			}
+			// It is not always seekable even if it has Seek. e.g. pipe
 		}
-		return skip, nil
-	default:
-		rd, err := io.CopyN(ioutil.Discard, r, int64(skip))
-		return int(rd), err
 	}
+	rd, err := io.CopyN(ioutil.Discard, r, int64(skip-read))
+	return read + int(rd), err
 }
 
 func readPascalString(r io.Reader) (str string, read int, err error) {
-- 
2.43.0


From def4be137ef4128a70501f7e118fe851d88ef045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 03/37] fix: use row length in bytes to split RLE compressed
 data of 16/32bit image

---
 compress.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/compress.go b/compress.go
index 5482877..6475abe 100644
--- a/compress.go
+++ b/compress.go
@@ -32,13 +32,7 @@ func (cm CompressionMethod) Decode(dest []byte, r io.Reader, sizeHint int64, rec
 	case CompressionMethodRaw:
 		return io.ReadFull(r, dest)
 	case CompressionMethodRLE:
-		var width int
-		if depth == 1 {
-			width = (rect.Dx() + 7) >> 3
-		} else {
-			width = rect.Dx()
-		}
-		return decodePackBits(dest, r, width, rect.Dy()*channels, large)
+		return decodePackBits(dest, r, (rect.Dx()*depth+7)>>3, rect.Dy()*channels, large)
 	case CompressionMethodZIPWithoutPrediction:
 		return decodeZLIB(dest, r, sizeHint)
 	case CompressionMethodZIPWithPrediction:
-- 
2.43.0


From 6130af16199aa53d968d5879307bb29d3bfb9c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:31 +0000
Subject: [PATCH 04/37] fix: keep RLE rows aligned so that broken rows do not
 depend on the number of CPUs

---
 compress_other.go   | 18 ++++++++++++------
 compress_wasm_js.go | 18 ++++++++++++------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/compress_other.go b/compress_other.go
index 9b7e084..da4f6c8 100644
--- a/compress_other.go
+++ b/compress_other.go
@@ -81,16 +81,21 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 }
 
 func decodePackBitsPerLine(dest []byte, buf []byte, lens []int) error {
+	if len(lens) == 0 {
+		return nil
+	}
 	var l int
+	width := len(dest) / len(lens)
 	for _, ln := range lens {
+		row := dest[:width]
 		for i := 0; i < ln; {
 			if buf[i] <= 0x7f {
 				l = int(buf[i]) + 1
-				if len(dest) < l || ln-i-1 < l {
+				if len(row) < l || ln-i-1 < l {
 					return errBrokenPackBits
 				}
-				copy(dest[:l], buf[i+1:])
-				dest = dest[l:]
+				copy(row[:l], buf[i+1:])
+				row = row[l:]
 				i += l + 1
 				continue
 			}
@@ -99,15 +104,16 @@ func decodePackBitsPerLine(dest []byte, buf []byte, lens []int) error {
 				continue
 			}
 			l = int(-buf[i]) + 1
-			if len(dest) < l || i+1 >= ln {
+			if len(row) < l || i+1 >= ln {
 				return errBrokenPackBits
 			}
 			for j, c := 0, buf[i+1]; j < l; j++ {
-				dest[j] = c
+				row[j] = c
 			}
-			dest = dest[l:]
+			row = row[l:]
 			i += 2
 		}
+		dest = dest[width:]
 		buf = buf[ln:]
 	}
 	return nil
diff --git a/compress_wasm_js.go b/compress_wasm_js.go
index 8009a24..49a0909 100644
--- a/compress_wasm_js.go
+++ b/compress_wasm_js.go
@@ -48,16 +48,21 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 }
 
 func decodePackBitsPerLine(dest []byte, buf []byte, lens []int) error {
+	if len(lens) == 0 {
+		return nil
+	}
 	var l int
+	width := len(dest) / len(lens)
 	for _, ln := range lens {
+		row := dest[:width]
 		for i := 0; i < ln; {
 			if buf[i] <= 0x7f {
 				l = int(buf[i]) + 1
-				if len(dest) < l || ln-i-1 < l {
+				if len(row) < l || ln-i-1 < l {
 					return errBrokenPackBits
 				}
-				copy(dest[:l], buf[i+1:])
-				dest = dest[l:]
+				copy(row[:l], buf[i+1:])
+				row = row[l:]
 				i += l + 1
 				continue
 			}
@@ -66,15 +71,16 @@ func decodePackBitsPerLine(dest []byte, buf []byte, lens []int) error {
 				continue
 			}
 			l = int(-buf[i]) + 1
-			if len(dest) < l || i+1 >= ln {
+			if len(row) < l || i+1 >= ln {
 				return errBrokenPackBits
 			}
 			for j, c := 0, buf[i+1]; j < l; j++ {
-				dest[j] = c
+				row[j] = c
 			}
-			dest = dest[l:]
+			row = row[l:]
 			i += 2
 		}
+		dest = dest[width:]
 		buf = buf[ln:]
 	}
 	return nil
-- 
2.43.0


From 464a5b52f1bcc3d7caf89085089cc3280a8ad8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:54 +0000
Subject: [PATCH 05/37] fix: do not read past the end of the alpha identifiers
 resource

---
 imageres.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/imageres.go b/imageres.go
index af5f22a..dd67a57 100644
--- a/imageres.go
+++ b/imageres.go
@@ -108,7 +108,7 @@ func hasAlphaID0(Res map[int]ImageResource) bool {
 	if !ok {
 		return true
 	}
-	for i, ln := 0, len(aid.Data); i < ln; i += 4 {
+	for i, ln := 0, len(aid.Data); i+4 <= ln; i += 4 {
 		if readUint32(aid.Data, i) == 0 {
 			return true
 		}
-- 
2.43.0


From a1c5361dfce201da5997c1d825166dfa66e03379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:58 +0000
Subject: [PATCH 06/37] fix: do not panic on broken color mode data,
 transparency index or depth of indexed and bitmap images

---
 psd.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/psd.go b/psd.go
index 4e66663..579514b 100644
--- a/psd.go
+++ b/psd.go
@@ -84,7 +84,7 @@ func (cfg *Config) PSB() bool {
 
 // Palette returns Palette if any.
 func (cfg *Config) Palette() color.Palette {
-	if cfg.ColorMode != ColorModeIndexed {
+	if cfg.ColorMode != ColorModeIndexed || len(cfg.ColorModeData) < 256*3 {
 		return nil
 	}
 
@@ -92,7 +92,7 @@ func (cfg *Config) Palette() color.Palette {
 	// 0x0417(1046) | (Photoshop 6.0) Transparency Index.
 	//                2 bytes for the index of transparent color, if any.
 	transparentColorIndex := -1
-	if r, ok := cfg.Res[0x0417]; ok {
+	if r, ok := cfg.Res[0x0417]; ok && len(r.Data) >= 2 {
 		transparentColorIndex = int(readUint16(r.Data, 0))
 	}
 	pal := make(color.Palette, len(cfg.ColorModeData)/3)
@@ -115,9 +115,13 @@ func (cfg *Config) makePicker() (picker, error) {
 	var pk picker
 	switch cfg.ColorMode {
 	case ColorModeIndexed:
-		pk = &pickerPalette{Palette: cfg.Palette()}
+		if pal := cfg.Palette(); pal != nil && cfg.Depth == 8 {
+			pk = &pickerPalette{Palette: pal}
+		}
 	case ColorModeBitmap:
-		pk = &pickerGray1{}
+		if cfg.Depth == 1 {
+			pk = &pickerGray1{}
+		}
 	default:
 		pk = findPicker(cfg.Depth, cfg.ColorMode, cfg.Channels > cfg.ColorMode.Channels() && hasAlphaID0(cfg.Res))
 	}
-- 
2.43.0


From fcb70ef48746f7c0cacb5c6e13e5fd702c6e2759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 07/37] fix: return an error if the number of channels is less
 than the color mode needs

---
 psd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/psd.go b/psd.go
index 579514b..f7b84cc 100644
--- a/psd.go
+++ b/psd.go
@@ -123,6 +123,9 @@ func (cfg *Config) makePicker() (picker, error) {
 			pk = &pickerGray1{}
 		}
 	default:
+		if cfg.Channels < cfg.ColorMode.Channels() {
+			return nil, errors.New("psd: the number of channels is not enough for color mode " + itoa(int(cfg.ColorMode)))
+		}
 		pk = findPicker(cfg.Depth, cfg.ColorMode, cfg.Channels > cfg.ColorMode.Channels() && hasAlphaID0(cfg.Res))
 	}
 	if pk == nil {
-- 
2.43.0


From 6fecee1cfdeec6d388bd0c6737bbba10d2848445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 08/37] fix: do not read past the end of a broken unicode
 string

---
 util.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util.go b/util.go
index 77b3de6..46dbb05 100644
--- a/util.go
+++ b/util.go
@@ -83,7 +83,13 @@ func writeUint32(b []byte, v uint32, offset int) {
 }
 
 func readUnicodeString(b []byte) string {
+	if len(b) < 4 {
+		return ""
+	}
 	ln := readUint32(b, 0)
+	if max := uint32((len(b) - 4) >> 1); ln > max {
+		ln = max
+	}
 	if ln == 0 {
 		return ""
 	}
-- 
2.43.0


From ff18869f51a8f2a023548e0616de7e9e1e48a9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 09/37] fix: return an error if section divider setting is too
 short

---
 layer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/layer.go b/layer.go
index 7771a92..3f92191 100644
--- a/layer.go
+++ b/layer.go
@@ -225,6 +225,9 @@ func buildTree(layer []Layer) ([]Layer, error) {
 func readSectionDividerSetting(l *Layer) (typ int, blendMode BlendMode, subType int, err error) {
 	b, ok := l.AdditionalLayerInfo[AdditionalInfoKeySectionDividerSetting]
 	if ok {
+		if len(b) < 4 {
+			return 0, "", 0, errors.New("psd: unexpected length of section divider setting")
+		}
 		typ = int(readUint32(b, 0))
 		if len(b) < 12 {
 			return typ, "", 0, nil
@@ -241,6 +244,9 @@ func readSectionDividerSetting(l *Layer) (typ int, blendMode BlendMode, subType
 	}
 	b, ok = l.AdditionalLayerInfo[AdditionalInfoKeySectionDividerSetting2]
 	if ok {
+		if len(b) < 4 {
+			return 0, "", 0, errors.New("psd: unexpected length of section divider setting 2")
+		}
 		typ = int(readUint32(b, 0))
 		if len(b) < 12 {
 			return typ, "", 0, nil
-- 
2.43.0


From 174cbba1d00dd410280031a13b775379341f3272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:33 +0000
Subject: [PATCH 10/37] fix: read the rectangle of the real user mask as signed
 integers

---
 layer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/layer.go b/layer.go
index 3f92191..df7c6df 100644
--- a/layer.go
+++ b/layer.go
@@ -797,8 +797,8 @@ func readLayerMaskAndAdjustmentLayerData(r io.Reader, layer *Layer, cfg *Config,
 	read += l
 	readMask += l
 	layer.Mask.RealRect = image.Rect(
-		int(readUint32(b, 4)), int(readUint32(b, 0)),
-		int(readUint32(b, 12)), int(readUint32(b, 8)),
+		int(int32(readUint32(b, 4))), int(int32(readUint32(b, 0))),
+		int(int32(readUint32(b, 12))), int(int32(readUint32(b, 8))),
 	)
 
 	return read, nil
-- 
2.43.0


From 6cdd5bf77a403863cc1b0ddfc03c5d102bf93139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:36 +0000
Subject: [PATCH 11/37] fix: skip the rest of the layer mask data

---
 layer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/layer.go b/layer.go
index df7c6df..4548180 100644
--- a/layer.go
+++ b/layer.go
@@ -801,6 +801,13 @@ func readLayerMaskAndAdjustmentLayerData(r io.Reader, layer *Layer, cfg *Config,
 		int(int32(readUint32(b, 12))), int(int32(readUint32(b, 8))),
 	)
 
+	// Discard any remaining data.
+	if maskLen-readMask > 0 {
+		if l, err = discard(r, maskLen-readMask); err != nil {
+			return read, err
+		}
+		read += l
+	}
 	return read, nil
 }
 
-- 
2.43.0


From e3280e8e144dfd37f45d45532a2ca8359feacae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:40 +0000
Subject: [PATCH 12/37] fix: read image resources until the end of the section

---
 imageres.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/imageres.go b/imageres.go
index dd67a57..247fc96 100644
--- a/imageres.go
+++ b/imageres.go
@@ -33,7 +33,7 @@ func readImageResource(r io.Reader) (resMap map[int]ImageResource, read int, err
 	// Image Resource Blocks
 	// http://www.adobe.com/devnet-apps/photoshop/fileformatashtml/#50577409_46269
 	var id int
-	for read < imageResourceLen {
+	for read < imageResourceLen+4 {
 		var res ImageResource
 
 		// Signature: '8BIM'
@@ -90,6 +90,9 @@ func readImageResource(r io.Reader) (resMap map[int]ImageResource, read int, err
 		}
 		resMap[id] = res
 	}
+	if read != imageResourceLen+4 {
+		return nil, read, errors.New("psd: image resources read size mismatched. expected " + itoa(imageResourceLen+4) + " actual " + itoa(read))
+	}
 	if Debug != nil {
 		Debug.Println("end - image resources section")
 	}
-- 
2.43.0


From 389f8866761bda119aba5090ddc31f760811330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:44 +0000
Subject: [PATCH 13/37] fix: return an error if layers exceed the layer info
 section

---
 layer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/layer.go b/layer.go
index 4548180..44ba522 100644
--- a/layer.go
+++ b/layer.go
@@ -430,6 +430,9 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions) (layer []Layer, r
 		}
 		read += l
 	}
+	if read > layerInfoLen+intSize {
+		return nil, read, errors.New("psd: layer info read size mismatched. expected " + itoa(layerInfoLen+intSize) + " actual " + itoa(read))
+	}
 	// Discard any remaining data.
 	if layerInfoLen+intSize > read {
 		if l, err = discard(r, layerInfoLen+intSize-read); err != nil {
-- 
2.43.0


From 5bc3354aec58c88dbd3e039da70ad9d5c47c3398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:48 +0000
Subject: [PATCH 14/37] fix: do not seek backwards if the layer and mask
 information section is exceeded

---
 layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layer.go b/layer.go
index 44ba522..132c549 100644
--- a/layer.go
+++ b/layer.go
@@ -174,7 +174,7 @@ func readLayerAndMaskInfo(r io.Reader, cfg *Config, o *DecodeOptions) (psd *PSD,
 		return nil, read, err
 	}
 
-	if remain := layerAndMaskInfoLen + intSize - read; remain != 0 && remain < intSize {
+	if remain := layerAndMaskInfoLen + intSize - read; remain > 0 && remain < intSize {
 		if l, err = discard(r, remain); err != nil {
 			return nil, read, err
 		}
-- 
2.43.0


From 41f9a10aa916dfe6f512243d6b66d75fa4576219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:51 +0000
Subject: [PATCH 15/37] fix: return an error if additional layer information
 exceeds its section

---
 layer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/layer.go b/layer.go
index 132c549..75b4b63 100644
--- a/layer.go
+++ b/layer.go
@@ -865,7 +865,11 @@ func readAdditionalLayerInfo(r io.Reader, infoLen int, cfg *Config, o *DecodeOpt
 			}
 			read += l
 			var data []byte
-			if ln := int(readUint(b, 0, intSize)); ln > 0 {
+			ln := int(readUint(b, 0, intSize))
+			if ln < 0 || ln > infoLen-read {
+				return nil, nil, read, errors.New("psd: unexpected data length in the additional layer information block: " + itoa(ln))
+			}
+			if ln > 0 {
 				data = make([]byte, ln)
 				if l, err = io.ReadFull(r, data); err != nil {
 					return nil, nil, read, err
-- 
2.43.0


From e196fc95756aa966bfc3f87e565c490107eed432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 16/37] fix: do not decode layers nested in the layer record to
 avoid exhausting the stack

---
 layer.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/layer.go b/layer.go
index 75b4b63..626eceb 100644
--- a/layer.go
+++ b/layer.go
@@ -158,7 +158,7 @@ func readLayerAndMaskInfo(r io.Reader, cfg *Config, o *DecodeOptions) (psd *PSD,
 
 	if layerAndMaskInfoLen+intSize-read >= 8 {
 		var layer2 []Layer
-		if psd.AdditinalLayerInfo, layer2, l, err = readAdditionalLayerInfo(r, layerAndMaskInfoLen+intSize-read, cfg, o); err != nil {
+		if psd.AdditinalLayerInfo, layer2, l, err = readAdditionalLayerInfo(r, layerAndMaskInfoLen+intSize-read, true, cfg, o); err != nil {
 			return nil, read, err
 		}
 		read += l
@@ -577,14 +577,10 @@ func readLayerExtraData(r io.Reader, layer *Layer, cfg *Config, o *DecodeOptions
 	read += l
 
 	if read < extraDataLen+4 {
-		var layers []Layer
-		if layer.AdditionalLayerInfo, layers, l, err = readAdditionalLayerInfo(r, extraDataLen+4-read, cfg, o); err != nil {
+		if layer.AdditionalLayerInfo, _, l, err = readAdditionalLayerInfo(r, extraDataLen+4-read, false, cfg, o); err != nil {
 			return read, err
 		}
 		read += l
-		if len(layers) > 0 {
-			return read, errors.New("psd: unexpected layer structure")
-		}
 	} else {
 		layer.AdditionalLayerInfo = map[AdditionalInfoKey][]byte{}
 	}
@@ -814,7 +810,10 @@ func readLayerMaskAndAdjustmentLayerData(r io.Reader, layer *Layer, cfg *Config,
 	return read, nil
 }
 
-func readAdditionalLayerInfo(r io.Reader, infoLen int, cfg *Config, o *DecodeOptions) (infos map[AdditionalInfoKey][]byte, layers []Layer, read int, err error) {
+// readAdditionalLayerInfo reads the additional layer information blocks.
+// allowLayers must be false in the layer record, because layers in there are unexpected
+// and they can be nested until the stack is exhausted.
+func readAdditionalLayerInfo(r io.Reader, infoLen int, allowLayers bool, cfg *Config, o *DecodeOptions) (infos map[AdditionalInfoKey][]byte, layers []Layer, read int, err error) {
 	if Debug != nil {
 		Debug.Println("start - additional layer info section")
 		Debug.Println("  infoLen:", infoLen)
@@ -852,6 +851,9 @@ func readAdditionalLayerInfo(r io.Reader, infoLen int, cfg *Config, o *DecodeOpt
 			if Debug != nil {
 				Debug.Println("  key:", key)
 			}
+			if !allowLayers {
+				return nil, nil, read, errors.New("psd: unexpected layer structure")
+			}
 			var layrs []Layer
 			if layrs, l, err = readLayerInfo(r, cfg, o); err != nil {
 				return nil, nil, read, err
-- 
2.43.0


From 9dd011f9ef5e2323f97bc33e30089f041e585a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:27 +0000
Subject: [PATCH 17/37] fix: do not allocate the buffer of an untrusted 64bit
 length before reading the data

---
 compress_other.go   |  3 +--
 compress_wasm_js.go |  3 +--
 layer.go            |  3 +--
 util.go             | 18 ++++++++++++++++++
 4 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/compress_other.go b/compress_other.go
index da4f6c8..b7f6970 100644
--- a/compress_other.go
+++ b/compress_other.go
@@ -39,8 +39,7 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 		}
 	}
 
-	buf = make([]byte, total)
-	if l, err = io.ReadFull(r, buf); err != nil {
+	if buf, l, err = readBytes(r, total); err != nil {
 		return
 	}
 	read += l
diff --git a/compress_wasm_js.go b/compress_wasm_js.go
index 49a0909..497f103 100644
--- a/compress_wasm_js.go
+++ b/compress_wasm_js.go
@@ -37,8 +37,7 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 		}
 	}
 
-	buf = make([]byte, total)
-	if l, err = io.ReadFull(r, buf); err != nil {
+	if buf, l, err = readBytes(r, total); err != nil {
 		return
 	}
 	read += l
diff --git a/layer.go b/layer.go
index 626eceb..123fe65 100644
--- a/layer.go
+++ b/layer.go
@@ -872,8 +872,7 @@ func readAdditionalLayerInfo(r io.Reader, infoLen int, allowLayers bool, cfg *Co
 				return nil, nil, read, errors.New("psd: unexpected data length in the additional layer information block: " + itoa(ln))
 			}
 			if ln > 0 {
-				data = make([]byte, ln)
-				if l, err = io.ReadFull(r, data); err != nil {
+				if data, l, err = readBytes(r, ln); err != nil {
 					return nil, nil, read, err
 				}
 				read += l
diff --git a/util.go b/util.go
index 46dbb05..eefc66d 100644
--- a/util.go
+++ b/util.go
@@ -1,6 +1,7 @@
 package psd
 
 import (
+	"bytes"
 	"io"
 	"io/ioutil"
 	"math"
@@ -137,6 +138,23 @@ func discard(r io.Reader, skip int) (read int, err error) {
 	return read + int(rd), err
 }
 
+// readBytes reads n bytes from r.
+// n may be a broken value, so the large buffer is not allocated until the data is really read.
+func readBytes(r io.Reader, n int) (b []byte, read int, err error) {
+	const chunkLen = 1 << 24
+	if n <= chunkLen {
+		b = make([]byte, n)
+		read, err = io.ReadFull(r, b)
+		return b, read, err
+	}
+	var buf bytes.Buffer
+	l, err := io.CopyN(&buf, r, int64(n))
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	return buf.Bytes(), int(l), err
+}
+
 func readPascalString(r io.Reader) (str string, read int, err error) {
 	b := make([]byte, 1)
 	if _, err := io.ReadFull(r, b); err != nil {
-- 
2.43.0


From 9b320f7cc0824a976582001e08a35ee3a75f94cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 18/37] fix: return an error if the layer image has unsupported
 color mode, and ignore extra channels in the picker

---
 layer.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/layer.go b/layer.go
index 123fe65..97f6d98 100644
--- a/layer.go
+++ b/layer.go
@@ -450,9 +450,13 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions) (layer []Layer, r
 func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *DecodeOptions) (read int, err error) {
 	var l int
 	b := make([]byte, 2)
+	numColors := cfg.ColorMode.Channels()
+	if numColors < 0 {
+		return 0, errors.New("psd: color mode " + itoa(int(cfg.ColorMode)) + " is not implemeted in the layer image")
+	}
 	for i, lci := range lcis {
 		chMap := map[int]Channel{}
-		pickerChs := make([][]byte, cfg.ColorMode.Channels(), 8)
+		pickerChs := make([][]byte, numColors, 8)
 		for _, j := range lci.ChannelData {
 			var readCh int
 			if j.DataLen >= 2 {
@@ -506,13 +510,16 @@ func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *Decode
 				Picker: pk,
 			}
 			switch {
-			case j.ChIndex >= 0:
+			case j.ChIndex >= 0 && j.ChIndex < numColors:
 				pickerChs[j.ChIndex] = data
 			case j.ChIndex == -1:
 				pickerChs = append(pickerChs, data)
 			}
 		}
-		pk := findPicker(cfg.Depth, cfg.ColorMode, cfg.ColorMode.Channels() < len(pickerChs))
+		pk := findPicker(cfg.Depth, cfg.ColorMode, numColors < len(pickerChs))
+		if pk == nil {
+			return read, errors.New("psd: color mode " + itoa(int(cfg.ColorMode)) + " depth " + itoa(cfg.Depth) + " is not implemeted in the layer image")
+		}
 		pk.setSource(lci.Layer.Rect, pickerChs...)
 		lci.Layer.Picker = pk
 		lci.Layer.Channel = chMap
-- 
2.43.0


From c39044196e49a8db552f35b7f5d8be723e9028bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:00 +0000
Subject: [PATCH 19/37] fix: return an error if layer or mask rectangle is too
 large to allocate

---
 layer.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/layer.go b/layer.go
index 97f6d98..f118d9c 100644
--- a/layer.go
+++ b/layer.go
@@ -447,6 +447,15 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions) (layer []Layer, r
 	return layerSlice, read, nil
 }
 
+// newChannelData allocates the channel image data of rect.
+func newChannelData(rect image.Rectangle, depth int) ([]byte, error) {
+	// The maximum size of the image is 300,000 pixels even in the large document format.
+	if rect.Dx() > 300000 || rect.Dy() > 300000 {
+		return nil, errors.New("psd: layer or mask rectangle is too large")
+	}
+	return make([]byte, (rect.Dx()*depth+7)>>3*rect.Dy()), nil
+}
+
 func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *DecodeOptions) (read int, err error) {
 	var l int
 	b := make([]byte, 2)
@@ -482,7 +491,10 @@ func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *Decode
 			default:
 				rect = lci.Layer.Rect
 			}
-			data := make([]byte, (rect.Dx()*cfg.Depth+7)>>3*rect.Dy())
+			var data []byte
+			if data, err = newChannelData(rect, cfg.Depth); err != nil {
+				return read, err
+			}
 			pk := findGrayPicker(cfg.Depth)
 			pk.setSource(rect, data)
 
-- 
2.43.0


From aa03c7d03ca95b56411415ddb05b5ea2d009440d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 20/37] fix: do not panic in the layer picker if some color
 channels are missing

---
 layer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/layer.go b/layer.go
index f118d9c..221ad1b 100644
--- a/layer.go
+++ b/layer.go
@@ -528,6 +528,14 @@ func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *Decode
 				pickerChs = append(pickerChs, data)
 			}
 		}
+		// Some channels may be missing in the broken file.
+		for j := range pickerChs {
+			if pickerChs[j] == nil {
+				if pickerChs[j], err = newChannelData(lci.Layer.Rect, cfg.Depth); err != nil {
+					return read, err
+				}
+			}
+		}
 		pk := findPicker(cfg.Depth, cfg.ColorMode, numColors < len(pickerChs))
 		if pk == nil {
 			return read, errors.New("psd: color mode " + itoa(int(cfg.ColorMode)) + " depth " + itoa(cfg.Depth) + " is not implemeted in the layer image")
-- 
2.43.0


From 0ea05a415e72a065c2cd31666d76689dfc4973cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 21/37] fix: return an error instead of dropping layers if a
 group is not closed

---
 layer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/layer.go b/layer.go
index 221ad1b..dfb90eb 100644
--- a/layer.go
+++ b/layer.go
@@ -219,6 +219,9 @@ func buildTree(layer []Layer) ([]Layer, error) {
 			n = append(n, l)
 		}
 	}
+	if len(stack) > 0 {
+		return nil, errors.New("psd: layer tree structure is broken(unclosed group)")
+	}
 	return n, nil
 }
 
-- 
2.43.0


From 1d2a2b0019a6c56e64884ce90c5a3c6ee4b18555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:12 +0000
Subject: [PATCH 22/37] fix: treat NaN color component as zero

---
 color/color.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/color/color.go b/color/color.go
index 95f762e..5c0f86a 100644
--- a/color/color.go
+++ b/color/color.go
@@ -10,10 +10,10 @@ func fromFloat(v, gamma float64) uint32 {
 	switch {
 	case x >= 1:
 		return 0xffff
-	case x <= 0:
-		return 0
-	default:
+	case x > 0:
 		return uint32(x * 0xffff)
+	default: // including NaN
+		return 0
 	}
 }
 
@@ -146,7 +146,7 @@ func (c NGrayA64) RGBA() (uint32, uint32, uint32, uint32) {
 	switch {
 	case c.A >= 1:
 		return y, y, y, 0xffff
-	case c.A <= 0:
+	case !(c.A > 0): // including NaN
 		return 0, 0, 0, 0
 	}
 	a := uint32(c.A * 0xffff)
@@ -184,7 +184,7 @@ func (c NRGBA128) RGBA() (uint32, uint32, uint32, uint32) {
 	switch {
 	case c.A >= 1:
 		return r, g, b, 0xffff
-	case c.A <= 0:
+	case !(c.A > 0): // including NaN
 		return 0, 0, 0, 0
 	}
 	a := uint32(c.A * 0xffff)
-- 
2.43.0


From 57b20dd760e61e66ace913566d517a47cc8d9aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:16 +0000
Subject: [PATCH 23/37] fix: return the color as is if it is already in the
 color model

---
 color/color.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/color/color.go b/color/color.go
index 5c0f86a..e12500e 100644
--- a/color/color.go
+++ b/color/color.go
@@ -85,7 +85,7 @@ func (c NGrayA) RGBA() (uint32, uint32, uint32, uint32) {
 }
 
 func nGrayAModel(c color.Color) color.Color {
-	if _, ok := c.(NGrayA64); ok {
+	if _, ok := c.(NGrayA); ok {
 		return c
 	}
 	r, g, b, a := c.RGBA()
@@ -120,7 +120,7 @@ func (c NGrayA32) RGBA() (uint32, uint32, uint32, uint32) {
 }
 
 func nGrayA32Model(c color.Color) color.Color {
-	if _, ok := c.(NGrayA64); ok {
+	if _, ok := c.(NGrayA32); ok {
 		return c
 	}
 	r, g, b, a := c.RGBA()
@@ -283,7 +283,7 @@ func (c NCMYKA80) RGBA() (uint32, uint32, uint32, uint32) {
 }
 
 func nCMYKA80Model(c color.Color) color.Color {
-	if _, ok := c.(NCMYKA); ok {
+	if _, ok := c.(NCMYKA80); ok {
 		return c
 	}
 	r, g, b, a := c.RGBA()
-- 
2.43.0


From f73e6076d70e2d06bbe9acee48fcb8ae4e37259e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:20 +0000
Subject: [PATCH 24/37] fix: do not divide by zero when converting transparent
 color to NCMYKA

---
 color/color.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/color/color.go b/color/color.go
index e12500e..3df5cb0 100644
--- a/color/color.go
+++ b/color/color.go
@@ -250,6 +250,9 @@ func nCMYKAModel(c color.Color) color.Color {
 		return c
 	}
 	r, g, b, a := c.RGBA()
+	if a == 0 {
+		return NCMYKA{0xff, 0xff, 0xff, 0xff, 0}
+	}
 	cc, mm, yy, kk := color.RGBToCMYK(uint8(r>>8), uint8(g>>8), uint8(b>>8))
 	cc = uint8((uint32(cc) * 0xffff) / a)
 	mm = uint8((uint32(mm) * 0xffff) / a)
-- 
2.43.0


From 6cdfa138a760d7fc5adcd8709781fe0675de28b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 25/37] fix: un-premultiply the color before converting it to
 NCMYKA and NCMYKA80

---
 color/color.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/color/color.go b/color/color.go
index 3df5cb0..f76d9d0 100644
--- a/color/color.go
+++ b/color/color.go
@@ -253,11 +253,10 @@ func nCMYKAModel(c color.Color) color.Color {
 	if a == 0 {
 		return NCMYKA{0xff, 0xff, 0xff, 0xff, 0}
 	}
+	r = (r * 0xffff) / a
+	g = (g * 0xffff) / a
+	b = (b * 0xffff) / a
 	cc, mm, yy, kk := color.RGBToCMYK(uint8(r>>8), uint8(g>>8), uint8(b>>8))
-	cc = uint8((uint32(cc) * 0xffff) / a)
-	mm = uint8((uint32(mm) * 0xffff) / a)
-	yy = uint8((uint32(yy) * 0xffff) / a)
-	kk = uint8((uint32(kk) * 0xffff) / a)
 	return NCMYKA{255 - cc, 255 - mm, 255 - yy, 255 - kk, uint8(a >> 8)}
 }
 
@@ -293,6 +292,9 @@ func nCMYKA80Model(c color.Color) color.Color {
 	if a == 0 {
 		return NCMYKA80{0xffff, 0xffff, 0xffff, 0xffff, 0}
 	}
+	r = (r * 0xffff) / a
+	g = (g * 0xffff) / a
+	b = (b * 0xffff) / a
 	w := r
 	if w < g {
 		w = g
@@ -307,13 +309,6 @@ func nCMYKA80Model(c color.Color) color.Color {
 	mm := (w - g) * 0xffff / w
 	yy := (w - b) * 0xffff / w
 	kk := 0xffff - w
-	if a == 0xffff {
-		return NCMYKA80{uint16(0xffff - cc), uint16(0xffff - mm), uint16(0xffff - yy), uint16(0xffff - kk), 0xffff}
-	}
-	cc = (cc * 0xffff) / a
-	mm = (mm * 0xffff) / a
-	yy = (yy * 0xffff) / a
-	kk = (kk * 0xffff) / a
 	return NCMYKA80{uint16(0xffff - cc), uint16(0xffff - mm), uint16(0xffff - yy), uint16(0xffff - kk), uint16(a)}
 }
 
-- 
2.43.0


From 0bf21e6156680faea058cec7f262863e47f4c3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 26/37] fix: convert black to black in NCMYKA80 color model

---
 color/color.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/color/color.go b/color/color.go
index f76d9d0..128c497 100644
--- a/color/color.go
+++ b/color/color.go
@@ -303,7 +303,7 @@ func nCMYKA80Model(c color.Color) color.Color {
 		w = b
 	}
 	if w == 0 {
-		return NCMYKA80{0xffff, 0xffff, 0xffff, 0xffff, uint16(a)}
+		return NCMYKA80{0xffff, 0xffff, 0xffff, 0, uint16(a)}
 	}
 	cc := (w - r) * 0xffff / w
 	mm := (w - g) * 0xffff / w
-- 
2.43.0


From b28bb246e6dfdb2162b8a336ab85d3e9c3d2a214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:50 +0000
Subject: [PATCH 27/37] fix: do not hang or lose layers when creating the tree
 is cancelled

---
 composite/layer.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/composite/layer.go b/composite/layer.go
index f8a5b2a..2d0480f 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -271,7 +271,12 @@ func createCanvas(ctx context.Context, psdFile io.Reader, tileSize int, m f64.Af
 			}
 			return nil
 		},
-		LayerImageLoaded: func(l *psd.Layer, index int, total int) { ch <- l },
+		LayerImageLoaded: func(l *psd.Layer, index int, total int) {
+			select {
+			case ch <- l:
+			case <-cctx.Done():
+			}
+		},
 	})
 	close(ch)
 	if err != nil {
@@ -280,6 +285,10 @@ func createCanvas(ctx context.Context, psdFile io.Reader, tileSize int, m f64.Af
 	if err = pc.Wait(ctx); err != nil {
 		return nil, nil, err
 	}
+	if ctx.Err() != nil {
+		// some layers may be lost.
+		return nil, nil, ErrAborted
+	}
 	img.Config.Rect = transformRect(img.Config.Rect, m)
 	return layerImages, img, nil
 }
-- 
2.43.0


From 0416eb25b89b6337fcbe097c4d07f64313fc7af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 28/37] fix: link all layers in the tree to their parent to
 refresh caches

---
 composite/builder.go |  4 +++-
 composite/layer.go   | 31 +++++++++++++++----------------
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/composite/builder.go b/composite/builder.go
index 3b4b6bb..285eb9e 100644
--- a/composite/builder.go
+++ b/composite/builder.go
@@ -51,8 +51,10 @@ func (b *builder) buildLayer(l *Layer, psdl *psd.Layer) {
 	l.MaskEnabled = psdl.Mask.Enabled() && !psdl.Mask.Rect.Empty()
 
 	b.Rect = b.Rect.Union(psdl.Rect)
+	// Children must not be moved after this because they are referred by pointers.
+	l.Children = make([]Layer, len(psdl.Layer))
 	for i := range psdl.Layer {
-		l.Children = append(l.Children, Layer{Parent: l})
+		l.Children[i].Parent = l
 		b.buildLayer(&l.Children[i], &psdl.Layer[i])
 	}
 }
diff --git a/composite/layer.go b/composite/layer.go
index 2d0480f..4b4336e 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -217,20 +217,6 @@ func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
 		Img: img,
 		LayerNameEncodingDetector: opt.LayerNameEncodingDetector,
 	}
-	root := Layer{
-		SeqID:      SeqIDRoot,
-		Folder:     true,
-		FolderOpen: true,
-		Visible:    true,
-		BlendMode:  psd.BlendModeNormal,
-		Opacity:    255,
-	}
-	for i := range img.Layer {
-		root.Children = append(root.Children, Layer{})
-		b.buildLayer(&root.Children[i], &img.Layer[i])
-	}
-	b.registerClippingGroup(root.Children)
-
 	r := &Tree{
 		Renderer: &Renderer{
 			cache: map[int]*cache{},
@@ -239,10 +225,23 @@ func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
 		layerImage: layerImages,
 
 		CanvasRect: img.Config.Rect,
-		Rect:       b.Rect.Intersect(img.Config.Rect),
 
-		Root: root,
+		Root: Layer{
+			SeqID:      SeqIDRoot,
+			Folder:     true,
+			FolderOpen: true,
+			Visible:    true,
+			BlendMode:  psd.BlendModeNormal,
+			Opacity:    255,
+			Children:   make([]Layer, len(img.Layer)),
+		},
+	}
+	for i := range img.Layer {
+		r.Root.Children[i].Parent = &r.Root
+		b.buildLayer(&r.Root.Children[i], &img.Layer[i])
 	}
+	b.registerClippingGroup(r.Root.Children)
+	r.Rect = b.Rect.Intersect(img.Config.Rect)
 
 	r.Renderer.pool.New = r.Renderer.allocate
 	r.Renderer.tree = r
-- 
2.43.0


From d0b11256ca02a813ed28b1f7e6d0de497cb950c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 29/37] fix: draw layers with unsupported blend mode as normal
 instead of panic

---
 composite/draw.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/composite/draw.go b/composite/draw.go
index eaae508..13665a1 100644
--- a/composite/draw.go
+++ b/composite/draw.go
@@ -40,7 +40,12 @@ var blendModes = map[psd.BlendMode]blend.Drawer{
 }
 
 func drawWithOpacity(dst draw.Image, r image.Rectangle, src draw.Image, sp image.Point, opacity int, bm psd.BlendMode) {
-	blendModes[bm].DrawMask(dst, r, src, sp, image.NewUniform(color.Alpha{uint8(opacity)}), image.Point{})
+	d, ok := blendModes[bm]
+	if !ok {
+		// The blend mode is not supported. e.g. dissolve
+		d = blend.Normal
+	}
+	d.DrawMask(dst, r, src, sp, image.NewUniform(color.Alpha{uint8(opacity)}), image.Point{})
 }
 
 func removeAlpha(b *image.NRGBA) {
-- 
2.43.0


From 82761d8be65edf897e4a4eeaee0e4d545c3147dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 30/37] fix: do not lose pixels in the tile at negative
 coordinates

---
 composite/layerimage.go | 25 +++++++++++++++++--------
 composite/renderer.go   |  4 ++--
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/composite/layerimage.go b/composite/layerimage.go
index 0a44f79..e0aafa8 100644
--- a/composite/layerimage.go
+++ b/composite/layerimage.go
@@ -19,6 +19,15 @@ type layerImage struct {
 
 type tiledImage map[image.Point]draw.Image
 
+// tileFloor returns the origin of the tile that includes v.
+func tileFloor(v int, tileSize int) int {
+	if m := v % tileSize; m < 0 {
+		return v - m - tileSize
+	} else {
+		return v - m
+	}
+}
+
 func (t tiledImage) Get(tileSize int, pt image.Point) (draw.Image, bool) {
 	r, ok := t[pt]
 	if !ok {
@@ -43,8 +52,8 @@ func (t tiledImage) Render(ctx context.Context, img draw.Image) error {
 	}
 
 	rect := img.Bounds()
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := tileFloor(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := tileFloor(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
@@ -231,8 +240,8 @@ func newScaledTiledImage(ctx context.Context, tileSize int, rect image.Rectangle
 }
 
 func newTiledImage(ctx context.Context, tileSize int, rect image.Rectangle, r, g, b, a []byte, deltaX int) (tiledImage, error) {
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := tileFloor(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := tileFloor(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
@@ -356,8 +365,8 @@ func (t tiledMask) Render(ctx context.Context, img draw.Image) error {
 	}
 
 	rect := img.Bounds()
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := tileFloor(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := tileFloor(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
@@ -425,8 +434,8 @@ func newScaledTiledMask(ctx context.Context, tileSize int, rect image.Rectangle,
 }
 
 func newTiledMask(ctx context.Context, tileSize int, rect image.Rectangle, a []byte, defaultColor int) (tiledMask, error) {
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := tileFloor(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := tileFloor(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
diff --git a/composite/renderer.go b/composite/renderer.go
index 2dd8aab..0e4ab1a 100644
--- a/composite/renderer.go
+++ b/composite/renderer.go
@@ -235,8 +235,8 @@ func (r *Renderer) render(ctx context.Context, dest *image.NRGBA, diffOnly bool)
 		Map: map[int]*[]image.Point{},
 	}
 
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := tileFloor(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := tileFloor(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
-- 
2.43.0


From 92fa2a887b933313b3ae1577bf92f3f4bced252b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 31/37] fix: do not lose the last row and column in the
 thumbnail

---
 composite/thumbnail.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/composite/thumbnail.go b/composite/thumbnail.go
index bcd916e..1984733 100644
--- a/composite/thumbnail.go
+++ b/composite/thumbnail.go
@@ -20,7 +20,7 @@ func trimUnusedArea(src *image.NRGBA, threshold byte) {
 	w, h := src.Rect.Dx(), src.Rect.Dy()
 	stride := src.Stride
 	pix := src.Pix[:h*stride]
-	rect := image.Rectangle{Min: image.Point{X: w, Y: h}, Max: image.Point{X: -1, Y: -1}}
+	rect := image.Rectangle{Min: image.Point{X: w, Y: h}, Max: image.Point{X: 0, Y: 0}}
 	for y := 0; y < h; y++ {
 		for l := 0; l < w; l++ {
 			if pix[l*4+3] > threshold {
@@ -29,8 +29,8 @@ func trimUnusedArea(src *image.NRGBA, threshold byte) {
 				}
 				for r := w - 1; r >= l; r-- {
 					if pix[r*4+3] > threshold {
-						if r > rect.Max.X {
-							rect.Max.X = r
+						if r+1 > rect.Max.X {
+							rect.Max.X = r + 1
 						}
 						break
 					}
@@ -38,13 +38,17 @@ func trimUnusedArea(src *image.NRGBA, threshold byte) {
 				if y < rect.Min.Y {
 					rect.Min.Y = y
 				}
-				rect.Max.Y = y
+				rect.Max.Y = y + 1
 				break
 			}
 		}
 		pix = pix[stride:]
 	}
 
+	if rect.Empty() {
+		// fully transparent
+		rect = image.Rectangle{}
+	}
 	if rect.Dx()*rect.Dy() == w*h {
 		return
 	}
-- 
2.43.0


From be3f3fcecc89b8bf8a0167ef8ba0e0a4d5c8f28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:28 +0000
Subject: [PATCH 32/37] fix: do not write to the layer while the decoder is
 still using it

---
 composite/builder.go | 10 ++++++++++
 composite/layer.go   |  5 ++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/composite/builder.go b/composite/builder.go
index 285eb9e..c012e4b 100644
--- a/composite/builder.go
+++ b/composite/builder.go
@@ -12,6 +12,7 @@ import (
 
 type builder struct {
 	Img                       *psd.PSD
+	LayerImages               map[int]layerImage
 	Rect                      image.Rectangle
 	LayerNameEncodingDetector func([]byte) encoding.Encoding
 	LayerNameEncoding         encoding.Encoding
@@ -20,6 +21,15 @@ type builder struct {
 func (b *builder) buildLayer(l *Layer, psdl *psd.Layer) {
 	l.SeqID = psdl.SeqID
 
+	// The layer image may be transformed.
+	li := b.LayerImages[psdl.SeqID]
+	if li.Canvas != nil {
+		psdl.Rect = li.Canvas.Rect()
+	}
+	if li.Mask != nil {
+		psdl.Mask.Rect = li.Mask.Rect()
+	}
+
 	if psdl.UnicodeName == "" && psdl.MBCSName != "" {
 		n, err := b.getLayerNameEncoding().NewDecoder().String(psdl.MBCSName)
 		if err != nil {
diff --git a/composite/layer.go b/composite/layer.go
index 4b4336e..3af4d05 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -214,7 +214,8 @@ func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
 	}
 
 	b := &builder{
-		Img: img,
+		Img:         img,
+		LayerImages: layerImages,
 		LayerNameEncodingDetector: opt.LayerNameEncodingDetector,
 	}
 	r := &Tree{
@@ -307,7 +308,6 @@ func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.
 				return
 			}
 			ld.Canvas = ti
-			l.Rect = ti.Rect()
 		}
 		if !l.Mask.Rect.Empty() {
 			if a, ok := l.Channel[-2]; ok {
@@ -316,7 +316,6 @@ func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.
 					return
 				}
 				ld.Mask = m
-				l.Mask.Rect = m.Rect()
 			}
 		}
 
-- 
2.43.0


From e7d709350a3e3de3c69709800a321bdc66f10351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 33/37] fix: do not panic if the layer has no color channels or
 is not 8bit

---
 composite/layer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/composite/layer.go b/composite/layer.go
index 3af4d05..672bd91 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -269,6 +269,9 @@ func createCanvas(ctx context.Context, psdFile io.Reader, tileSize int, m f64.Af
 			if c.ColorMode != psd.ColorModeRGB {
 				return errors.New("Unsupported color mode")
 			}
+			if c.Depth != 8 {
+				return errors.New("Unsupported color depth")
+			}
 			return nil
 		},
 		LayerImageLoaded: func(l *psd.Layer, index int, total int) {
@@ -297,8 +300,8 @@ func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.
 	defer pc.Done()
 	for l := range ch {
 		var ld layerImage
-		if l.HasImage() && !l.Rect.Empty() {
-			r, g, b := l.Channel[0].Data, l.Channel[1].Data, l.Channel[2].Data
+		r, g, b := l.Channel[0].Data, l.Channel[1].Data, l.Channel[2].Data
+		if l.HasImage() && !l.Rect.Empty() && r != nil && g != nil && b != nil {
 			var a []byte
 			if ach, ok := l.Channel[-1]; ok {
 				a = ach.Data
-- 
2.43.0


From 7141ee0b29a0d4483a2d10a9591941a0124b1c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:54 +0000
Subject: [PATCH 34/37] fix: do not ignore the layer mask that hides whole of
 the layer

---
 composite/builder.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/composite/builder.go b/composite/builder.go
index c012e4b..0cc6c55 100644
--- a/composite/builder.go
+++ b/composite/builder.go
@@ -22,13 +22,9 @@ func (b *builder) buildLayer(l *Layer, psdl *psd.Layer) {
 	l.SeqID = psdl.SeqID
 
 	// The layer image may be transformed.
-	li := b.LayerImages[psdl.SeqID]
-	if li.Canvas != nil {
+	if li := b.LayerImages[psdl.SeqID]; li.Canvas != nil {
 		psdl.Rect = li.Canvas.Rect()
 	}
-	if li.Mask != nil {
-		psdl.Mask.Rect = li.Mask.Rect()
-	}
 
 	if psdl.UnicodeName == "" && psdl.MBCSName != "" {
 		n, err := b.getLayerNameEncoding().NewDecoder().String(psdl.MBCSName)
-- 
2.43.0


From 2e56ef9d15db6ed8f56c4d96ca81285ca3ea3e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:58 +0000
Subject: [PATCH 35/37] fix: report the error that occurred when closing the
 exported file

---
 psdexporter/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/psdexporter/main.go b/psdexporter/main.go
index 41a3694..2235d44 100644
--- a/psdexporter/main.go
+++ b/psdexporter/main.go
@@ -26,8 +26,11 @@ func processLayer(filename string, layerName string, l *psd.Layer) error {
 	if err != nil {
 		return err
 	}
-	defer out.Close()
-	return png.Encode(out, l.Picker)
+	if err = png.Encode(out, l.Picker); err != nil {
+		out.Close()
+		return err
+	}
+	return out.Close()
 }
 
 func main() {
-- 
2.43.0


From 938871cc7f6e0e8d765ebecad05c4e40e0abf786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 36/37] fix: skip empty layers because they cannot be exported
 as png

---
 psdexporter/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdexporter/main.go b/psdexporter/main.go
index 2235d44..8402fd7 100644
--- a/psdexporter/main.go
+++ b/psdexporter/main.go
@@ -18,7 +18,7 @@ func processLayer(filename string, layerName string, l *psd.Layer) error {
 			}
 		}
 	}
-	if !l.HasImage() {
+	if !l.HasImage() || l.Rect.Empty() {
 		return nil
 	}
 	fmt.Printf("%s -> %s.png\n", layerName, filename)
-- 
2.43.0


From 682ade6a264927371d7389d4e5b04e8868e17917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 37/37] fix: apply the mask to premultiplied source color in
 Porter-Duff operators

---
 blend/genporterduff.go | 16 +++++++
 blend/zporterduffs.go  | 98 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 114 insertions(+)

diff --git a/blend/genporterduff.go b/blend/genporterduff.go
index 93abc7e..43a1089 100644
--- a/blend/genporterduff.go
+++ b/blend/genporterduff.go
@@ -373,6 +373,11 @@ var draw{{.Name}}NRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 			dr := uint32(dpix[j]) * 0x0101
 {{end}}
 {{end}}
+{{define "drawMain1_SrcRGBAMask"}}
+			sb = sb * alpha / 0xffff
+			sg = sg * alpha / 0xffff
+			sr = sr * alpha / 0xffff
+{{end}}
 {{define "drawMain1_SrcNRGBAToRGBA"}}
 			if sa == 0x0000 {
 				sr = 0
@@ -455,6 +460,9 @@ var draw{{.Name}}NRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 
 var draw{{.Name}}RGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0, s0, y int, sx0 int, sx1 int, sxDelta int, syDelta int, dx0 int, dx1 int, dxDelta int, dyDelta int) {
 	{{template "drawMain1" .}}
+	{{if and (ne .SrcRead "skip") (ne .SrcRead "alpha")}}
+		{{template "drawMain1_SrcRGBAMask" .}}
+	{{end}}
 	{{if and (ne .DestRead "skip") (ne .DestRead "alpha")}}
 		{{template "drawMain1_DestNRGBAToRGBA" .}}
 	{{end}}
@@ -475,6 +483,9 @@ var draw{{.Name}}NRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 
 var draw{{.Name}}RGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0, s0, y int, sx0 int, sx1 int, sxDelta int, syDelta int, dx0 int, dx1 int, dxDelta int, dyDelta int) {
 	{{template "drawMain1" .}}
+	{{if and (ne .SrcRead "skip") (ne .SrcRead "alpha")}}
+		{{template "drawMain1_SrcRGBAMask" .}}
+	{{end}}
 	{{template "drawMain2" .}}
 	{{template "drawMain2_SetByRGBA" .}}
 	{{template "drawMain3" .}}
@@ -691,8 +702,13 @@ func (d {{.Name.Lower}}) drawFallback(dst draw.Image, r image.Rectangle, src ima
 
 {{if eq .SrcRead "alpha"}}
 			_, _, _, sa := src.At(sx, sy).RGBA()
+			sa = sa * ma / 0xffff
 {{else if ne .SrcRead "skip"}}
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
+			sr = sr * ma / 0xffff
+			sg = sg * ma / 0xffff
+			sb = sb * ma / 0xffff
+			sa = sa * ma / 0xffff
 {{end}}
 {{if eq .DestRead "alpha"}}
 			_, _, _, da := dst.At(x, y).RGBA()
diff --git a/blend/zporterduffs.go b/blend/zporterduffs.go
index ecace5e..259968e 100644
--- a/blend/zporterduffs.go
+++ b/blend/zporterduffs.go
@@ -654,6 +654,10 @@ var drawCopyRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d
 			sg := uint32(spix[i+1]) * 0x0101
 			sr := uint32(spix[i]) * 0x0101
 
+			sb = sb * alpha / 0xffff
+			sg = sg * alpha / 0xffff
+			sr = sr * alpha / 0xffff
+
 			var r, g, b, a, tmp uint32
 			_ = tmp
 
@@ -748,6 +752,10 @@ var drawCopyRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0
 			sg := uint32(spix[i+1]) * 0x0101
 			sr := uint32(spix[i]) * 0x0101
 
+			sb = sb * alpha / 0xffff
+			sg = sg * alpha / 0xffff
+			sr = sr * alpha / 0xffff
+
 			var r, g, b, a, tmp uint32
 			_ = tmp
 
@@ -951,6 +959,10 @@ func (d copy) drawFallback(dst draw.Image, r image.Rectangle, src image.Image, s
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
+			sr = sr * ma / 0xffff
+			sg = sg * ma / 0xffff
+			sb = sb * ma / 0xffff
+			sa = sa * ma / 0xffff
 
 			var a, r, g, b, tmp uint32
 			_ = tmp
@@ -1777,6 +1789,10 @@ var drawSrcOverRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32
 			dg := uint32(dpix[j+1]) * 0x0101
 			dr := uint32(dpix[j]) * 0x0101
 
+			sb = sb * alpha / 0xffff
+			sg = sg * alpha / 0xffff
+			sr = sr * alpha / 0xffff
+
 			if da == 0x0000 {
 				dr = 0
 				dg = 0
@@ -1893,6 +1909,10 @@ var drawSrcOverRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint32,
 			dg := uint32(dpix[j+1]) * 0x0101
 			dr := uint32(dpix[j]) * 0x0101
 
+			sb = sb * alpha / 0xffff
+			sg = sg * alpha / 0xffff
+			sr = sr * alpha / 0xffff
+
 			var r, g, b, a, tmp uint32
 			_ = tmp
 
@@ -2141,6 +2161,10 @@ func (d srcOver) drawFallback(dst draw.Image, r image.Rectangle, src image.Image
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
+			sr = sr * ma / 0xffff
+			sg = sg * ma / 0xffff
+			sb = sb * ma / 0xffff
+			sa = sa * ma / 0xffff
 
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
@@ -2407,6 +2431,10 @@ var drawDestOverRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint3
 			dg := uint32(dpix[j+1]) * 0x0101
 			dr := uint32(dpix[j]) * 0x0101
 
+			sb = sb * alpha / 0xffff
+			sg = sg * alpha / 0xffff
+			sr = sr * alpha / 0xffff
+
 			if da == 0x0000 {
 				dr = 0
 				dg = 0
@@ -2523,6 +2551,10 @@ var drawDestOverRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint32
 			dg := uint32(dpix[j+1]) * 0x0101
 			dr := uint32(dpix[j]) * 0x0101
 
+			sb = sb * alpha / 0xffff
+			sg = sg * alpha / 0xffff
+			sr = sr * alpha / 0xffff
+
 			var r, g, b, a, tmp uint32
 			_ = tmp
 
@@ -2771,6 +2803,10 @@ func (d destOver) drawFallback(dst draw.Image, r image.Rectangle, src image.Imag
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
+			sr = sr * ma / 0xffff
+			sg = sg * ma / 0xffff
+			sb = sb * ma / 0xffff
+			sa = sa * ma / 0xffff
 
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
@@ -3020,6 +3056,10 @@ var drawSrcInRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32,
 
 			da := uint32(dpix[j+3]) * 0x0101
 
+			sb = sb * alpha / 0xffff
+			sg = sg * alpha / 0xffff
+			sr = sr * alpha / 0xffff
+
 			var r, g, b, a, tmp uint32
 			_ = tmp
 
@@ -3118,6 +3158,10 @@ var drawSrcInRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d
 
 			da := uint32(dpix[j+3]) * 0x0101
 
+			sb = sb * alpha / 0xffff
+			sg = sg * alpha / 0xffff
+			sr = sr * alpha / 0xffff
+
 			var r, g, b, a, tmp uint32
 			_ = tmp
 
@@ -3329,6 +3373,10 @@ func (d srcIn) drawFallback(dst draw.Image, r image.Rectangle, src image.Image,
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
+			sr = sr * ma / 0xffff
+			sg = sg * ma / 0xffff
+			sb = sb * ma / 0xffff
+			sa = sa * ma / 0xffff
 
 			_, _, _, da := dst.At(x, y).RGBA()
 
@@ -3918,6 +3966,7 @@ func (d destIn) drawFallback(dst draw.Image, r image.Rectangle, src image.Image,
 			}
 
 			_, _, _, sa := src.At(sx, sy).RGBA()
+			sa = sa * ma / 0xffff
 
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
@@ -4167,6 +4216,10 @@ var drawSrcOutRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32,
 
 			da := uint32(dpix[j+3]) * 0x0101
 
+			sb = sb * alpha / 0xffff
+			sg = sg * alpha / 0xffff
+			sr = sr * alpha / 0xffff
+
 			var r, g, b, a, tmp uint32
 			_ = tmp
 
@@ -4267,6 +4320,10 @@ var drawSrcOutRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint32,
 
 			da := uint32(dpix[j+3]) * 0x0101
 
+			sb = sb * alpha / 0xffff
+			sg = sg * alpha / 0xffff
+			sr = sr * alpha / 0xffff
+
 			var r, g, b, a, tmp uint32
 			_ = tmp
 
@@ -4483,6 +4540,10 @@ func (d srcOut) drawFallback(dst draw.Image, r image.Rectangle, src image.Image,
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
+			sr = sr * ma / 0xffff
+			sg = sg * ma / 0xffff
+			sb = sb * ma / 0xffff
+			sa = sa * ma / 0xffff
 
 			_, _, _, da := dst.At(x, y).RGBA()
 
@@ -5081,6 +5142,7 @@ func (d destOut) drawFallback(dst draw.Image, r image.Rectangle, src image.Image
 			}
 
 			_, _, _, sa := src.At(sx, sy).RGBA()
+			sa = sa * ma / 0xffff
 
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
@@ -5347,6 +5409,10 @@ var drawSrcAtopRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32
 			dg := uint32(dpix[j+1]) * 0x0101
 			dr := uint32(dpix[j]) * 0x0101
 
+			sb = sb * alpha / 0xffff
+			sg = sg * alpha / 0xffff
+			sr = sr * alpha / 0xffff
+
 			if da == 0x0000 {
 				dr = 0
 				dg = 0
@@ -5463,6 +5529,10 @@ var drawSrcAtopRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint32,
 			dg := uint32(dpix[j+1]) * 0x0101
 			dr := uint32(dpix[j]) * 0x0101
 
+			sb = sb * alpha / 0xffff
+			sg = sg * alpha / 0xffff
+			sr = sr * alpha / 0xffff
+
 			var r, g, b, a, tmp uint32
 			_ = tmp
 
@@ -5711,6 +5781,10 @@ func (d srcAtop) drawFallback(dst draw.Image, r image.Rectangle, src image.Image
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
+			sr = sr * ma / 0xffff
+			sg = sg * ma / 0xffff
+			sb = sb * ma / 0xffff
+			sa = sa * ma / 0xffff
 
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
@@ -5977,6 +6051,10 @@ var drawDestAtopRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint3
 			dg := uint32(dpix[j+1]) * 0x0101
 			dr := uint32(dpix[j]) * 0x0101
 
+			sb = sb * alpha / 0xffff
+			sg = sg * alpha / 0xffff
+			sr = sr * alpha / 0xffff
+
 			if da == 0x0000 {
 				dr = 0
 				dg = 0
@@ -6093,6 +6171,10 @@ var drawDestAtopRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint32
 			dg := uint32(dpix[j+1]) * 0x0101
 			dr := uint32(dpix[j]) * 0x0101
 
+			sb = sb * alpha / 0xffff
+			sg = sg * alpha / 0xffff
+			sr = sr * alpha / 0xffff
+
 			var r, g, b, a, tmp uint32
 			_ = tmp
 
@@ -6341,6 +6423,10 @@ func (d destAtop) drawFallback(dst draw.Image, r image.Rectangle, src image.Imag
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
+			sr = sr * ma / 0xffff
+			sg = sg * ma / 0xffff
+			sb = sb * ma / 0xffff
+			sa = sa * ma / 0xffff
 
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
@@ -6606,6 +6692,10 @@ var drawXORRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0
 			dg := uint32(dpix[j+1]) * 0x0101
 			dr := uint32(dpix[j]) * 0x0101
 
+			sb = sb * alpha / 0xffff
+			sg = sg * alpha / 0xffff
+			sr = sr * alpha / 0xffff
+
 			if da == 0x0000 {
 				dr = 0
 				dg = 0
@@ -6720,6 +6810,10 @@ var drawXORRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0,
 			dg := uint32(dpix[j+1]) * 0x0101
 			dr := uint32(dpix[j]) * 0x0101
 
+			sb = sb * alpha / 0xffff
+			sg = sg * alpha / 0xffff
+			sr = sr * alpha / 0xffff
+
 			var r, g, b, a, tmp uint32
 			_ = tmp
 
@@ -6963,6 +7057,10 @@ func (d xOR) drawFallback(dst draw.Image, r image.Rectangle, src image.Image, sp
 			}
 
 			sr, sg, sb, sa := src.At(sx, sy).RGBA()
+			sr = sr * ma / 0xffff
+			sg = sg * ma / 0xffff
+			sb = sb * ma / 0xffff
+			sa = sa * ma / 0xffff
 
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
-- 
2.43.0

