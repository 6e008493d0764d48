From e14026427d254cddd8f3054a76956f515cc789af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 01/29] fix: do not let decodeBufferWrite clobber the window
 slice it is copying

---
 reader.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 52b638c..d274402 100644
--- a/reader.go
+++ b/reader.go
@@ -814,6 +814,8 @@ func (fr *Reader) decodeHuffmanBlock(blockType BlockType, isFinal bool) bool {
 	hLL := fr.hLL
 	hD := fr.hD
 
+	var tmp [258]byte
+
 	for {
 		symbol, ok := fr.readSymbol(hLL)
 		if !ok {
@@ -853,8 +855,11 @@ func (fr *Reader) decodeHuffmanBlock(blockType BlockType, isFinal bool) bool {
 			fr.corruptf("distance %d > window.Size %d", distance, fr.window.Size())
 			return false
 		}
-		fr.decodeBufferWrite(p)
-		length -= uint(len(p))
+
+		// p is a view into fr.window, which decodeBufferWrite modifies.
+		n := copy(tmp[:], p)
+		fr.decodeBufferWrite(tmp[:n])
+		length -= uint(n)
 
 		for length != 0 {
 			ch, err := fr.window.LookupByte(distance)
-- 
2.43.0


From ce0c0ce79499eb46ff357d4322147eb17e8e3524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 02/29] fix: decode streams that are still buffered when the
 source reaches EOF

---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index d274402..7e61cb0 100644
--- a/reader.go
+++ b/reader.go
@@ -328,7 +328,7 @@ func (fr *Reader) readThread() {
 	fr.mu1.Lock()
 
 	fr.numStreams = 0
-	for fr.inputError == nil {
+	for !fr.stopIsForced {
 		if !fr.readHeader() {
 			break
 		}
-- 
2.43.0


From d08be5e942adff04441ac56900ac53cba93b47ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 03/29] fix: refill the input before guessing the format of a
 stream

---
 reader.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 7e61cb0..0ad725f 100644
--- a/reader.go
+++ b/reader.go
@@ -450,9 +450,15 @@ func (fr *Reader) readFooter() bool {
 }
 
 func (fr *Reader) readHeaderAuto() bool {
+	if fr.inputBuffer.Len() < 2 {
+		fr.inputBufferFill()
+	}
+
 	p := fr.inputBuffer.PrepareBulkRead(2)
 	if len(p) < 2 {
-		return fr.readHeaderRaw()
+		// Even the smallest stream of any format is at least 2 bytes long.
+		fr.propagateError(true)
+		return false
 	}
 
 	if p[0] == 0x1f && p[1] == 0x8b {
-- 
2.43.0


From 75e3403de338a113839df41abce6774208f6966f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 04/29] fix: deliver decoded data before an error and stop
 decoding after it

---
 reader.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/reader.go b/reader.go
index 0ad725f..65a9547 100644
--- a/reader.go
+++ b/reader.go
@@ -340,6 +340,10 @@ func (fr *Reader) readThread() {
 			// pass
 		}
 
+		if fr.outputErrorWasSet {
+			break
+		}
+
 		fr.decodeBufferMustFlush()
 
 		if !fr.readFooter() {
@@ -987,9 +991,11 @@ func (fr *Reader) readDynamicTrees(isFinal bool) bool {
 
 	if numLL > logicalNumLLCodes {
 		fr.corruptf("HLIT %d > %d", numLL, logicalNumLLCodes)
+		return false
 	}
 	if numD > logicalNumDCodes {
 		fr.corruptf("HDIST %d > %d", numD, logicalNumDCodes)
+		return false
 	}
 
 	const numCodes = 19
@@ -1385,6 +1391,12 @@ func (fr *Reader) closeWithError(err error) {
 		return
 	}
 
+	// Data decoded before the error must be delivered before the error.
+	fr.decodeBufferMustFlush()
+	if fr.outputErrorWasSet {
+		return
+	}
+
 	fr.mu2.Lock()
 	fr.outputError = err
 	fr.cv1.Broadcast()
-- 
2.43.0


From 789ec2647c8350a56c7371926e22a457a0c9a8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 05/29] fix: report the end of input inside a symbol as such,
 not as corruption

---
 reader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reader.go b/reader.go
index 65a9547..660a0cb 100644
--- a/reader.go
+++ b/reader.go
@@ -1143,6 +1143,7 @@ func (fr *Reader) readSymbol(hdec *huffman.Decoder) (symbol huffman.Symbol, ok b
 	numBits := min
 	for numBits <= max {
 		if ok := fr.inputBitsFill(numBits); !ok {
+			fr.propagateError(true)
 			return huffman.InvalidSymbol, false
 		}
 
-- 
2.43.0


From 5d3b74aaee56953344a5b74a573d42fed132840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:10 +0000
Subject: [PATCH 06/29] fix: deliver the part of a stored block that arrived
 before the input ended

---
 reader.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 660a0cb..ef1a62c 100644
--- a/reader.go
+++ b/reader.go
@@ -785,13 +785,14 @@ func (fr *Reader) readFlateBlockStored() bool {
 	}
 
 	p, ok := fr.inputBufferRead(make([]byte, len0))
+
+	fr.decodeBufferWrite(p)
+
 	if !ok {
 		fr.propagateError(true)
 		return false
 	}
 
-	fr.decodeBufferWrite(p)
-
 	return true
 }
 
-- 
2.43.0


From b77bf141369884eb25371bfa704e2c67f4e276b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 07/29] fix: reject matches that reach beyond the start of the
 stream

---
 reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/reader.go b/reader.go
index ef1a62c..7391fff 100644
--- a/reader.go
+++ b/reader.go
@@ -861,6 +861,12 @@ func (fr *Reader) decodeHuffmanBlock(blockType BlockType, isFinal bool) bool {
 		length := uint(t.literalOrLength)
 		distance := uint(t.distance)
 
+		available := uint64(len(fr.dict)) + fr.outputBytesStream + uint64(fr.decodeBuffer.Len())
+		if uint64(distance) > available {
+			fr.corruptf("distance %d reaches beyond the start of the stream", distance)
+			return false
+		}
+
 		p, err := fr.window.LookupSlice(distance, length)
 		if err != nil {
 			fr.corruptf("distance %d > window.Size %d", distance, fr.window.Size())
-- 
2.43.0


From 42a112b996bf0ae29954fdc18ac037d7892b3687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 08/29] fix: accept a preset dictionary that consists of zero
 bytes

---
 reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 7391fff..e945ccf 100644
--- a/reader.go
+++ b/reader.go
@@ -524,7 +524,7 @@ func (fr *Reader) readHeaderZlib() bool {
 			return false
 		}
 
-		if fr.window.IsZero() {
+		if fr.dict == nil {
 			fr.corruptf("zlib stream was compressed with a pre-set dictionary -- Adler-32 checksum of the dictionary required to decompress this stream is %#08x", expectedAdler32)
 			return false
 		}
@@ -535,7 +535,7 @@ func (fr *Reader) readHeaderZlib() bool {
 			return false
 		}
 	} else {
-		if !fr.window.IsZero() {
+		if fr.dict != nil {
 			computedAdler32 := adler32.Checksum(fr.dict)
 			fr.corruptf("zlib stream was not compressed with a pre-set dictionary -- Adler-32 checksum of the supplied dictionary is %#08x", computedAdler32)
 			return false
-- 
2.43.0


From d9bf7ef412d428525b72099e61783d94e1e37ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 09/29] fix: do not panic on a truncated gzip extra data record

---
 header.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/header.go b/header.go
index cc12f7b..fc1f419 100644
--- a/header.go
+++ b/header.go
@@ -41,6 +41,10 @@ func (xd *ExtraData) Parse(raw []byte) {
 		rec.ID[1] = raw[index+1]
 		recLen := uint(binary.LittleEndian.Uint16(raw[index+2 : index+4]))
 		index += 4
+		if recLen > (length - index) {
+			// The record is truncated; there is nothing more to parse.
+			break
+		}
 		rec.Bytes = raw[index : index+recLen]
 		index += recLen
 		xd.Records = append(xd.Records, rec)
-- 
2.43.0


From 5193c17023acd321c6347ba7243a1ea459139b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 10/29] fix: hold the lock while reading Reader.r in
 UnderlyingReader

---
 reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index e945ccf..68a8f33 100644
--- a/reader.go
+++ b/reader.go
@@ -185,7 +185,10 @@ func (fr *Reader) Tracers() []Tracer {
 
 // UnderlyingReader returns the io.Reader which this Reader uses.
 func (fr *Reader) UnderlyingReader() io.Reader {
-	return fr.r
+	fr.mu1.Lock()
+	r := fr.r
+	fr.mu1.Unlock()
+	return r
 }
 
 // Reset re-initializes this Reader with the given io.Reader and options.  Any
-- 
2.43.0


From 04549f8f361975dffa2991bfa9154b26f35de0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 11/29] fix: do not deadlock when a Reader is reset in the
 middle of a stream

---
 reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 68a8f33..8e1d722 100644
--- a/reader.go
+++ b/reader.go
@@ -202,11 +202,11 @@ func (fr *Reader) Reset(r io.Reader, opts ...Option) {
 	fr.mu1.Lock()
 	defer fr.mu1.Unlock()
 
+	fr.stopReadThreadLocked()
+
 	fr.mu2.Lock()
 	defer fr.mu2.Unlock()
 
-	fr.stopReadThreadLocked()
-
 	fr.r = r
 	fr.inputError = nil
 	fr.readThreadWasStarted = false
-- 
2.43.0


From 51cfa8318a55b306bf4da4e16a5dacf5cc4226dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 12/29] fix: discard leftover input bits when a Reader is reset

---
 reader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reader.go b/reader.go
index 8e1d722..b283c53 100644
--- a/reader.go
+++ b/reader.go
@@ -215,6 +215,7 @@ func (fr *Reader) Reset(r io.Reader, opts ...Option) {
 	fr.stopIsForced = false
 
 	fr.inputBuffer.Clear()
+	fr.inputBitsDiscard()
 	fr.decodeBuffer.Clear()
 	fr.window.Clear()
 
-- 
2.43.0


From 53d467e14318985d7621de6fa881f7d10c3b6be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:46 +0000
Subject: [PATCH 13/29] fix: do not hold the Reader's lock while reading from
 the source

---
 reader.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index b283c53..17fb3e6 100644
--- a/reader.go
+++ b/reader.go
@@ -1184,7 +1184,13 @@ func (fr *Reader) inputBufferFill() {
 		return
 	}
 
-	_, err := fr.inputBuffer.ReadFrom(fr.r)
+	// Do not hold the lock while the source is busy.  Nobody else touches
+	// inputBuffer until readThread has stopped.
+	r := fr.r
+	fr.mu1.Unlock()
+	_, err := fr.inputBuffer.ReadFrom(r)
+	fr.mu1.Lock()
+
 	fr.inputError = err
 }
 
-- 
2.43.0


From 807f045b4b219f09fd438a21d58ce05fba8b326e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 14/29] fix: discard pending output bits when a Writer is reset

---
 writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/writer.go b/writer.go
index c268002..5044afe 100644
--- a/writer.go
+++ b/writer.go
@@ -240,6 +240,8 @@ func (fw *Writer) Reset(w io.Writer, opts ...Option) {
 
 	fw.hybrid.Clear()
 	fw.output.Clear()
+	fw.obBlock = 0
+	fw.obLen = 0
 
 	if len(opts) == 0 {
 		return
-- 
2.43.0


From f47ba80a3271cfafb2017962c841ff75fd7150c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:50 +0000
Subject: [PATCH 15/29] fix: do not write to the sink again after the gzip
 footer failed

---
 writer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/writer.go b/writer.go
index 5044afe..52f5273 100644
--- a/writer.go
+++ b/writer.go
@@ -786,9 +786,9 @@ func writeHeaderGZIPComment(header Header) (byte, func(*Writer) bool) {
 }
 
 func (fw *Writer) writeFooterGZIP(c32 uint32) bool {
-	ok1 := fw.outputBufferWriteU32(binary.LittleEndian, c32)
-	ok2 := fw.outputBufferWriteU32(binary.LittleEndian, uint32(fw.inputBytesStream))
-	return ok1 && ok2
+	ok := fw.outputBufferWriteU32(binary.LittleEndian, c32)
+	ok = ok && fw.outputBufferWriteU32(binary.LittleEndian, uint32(fw.inputBytesStream))
+	return ok
 }
 
 func (fw *Writer) inputBufferRead(buf []byte) []byte {
-- 
2.43.0


From debc844909043e89413c99d6b80e0324bdc9681a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 16/29] fix: hand all complete bytes to the sink on
 PartialFlush

---
 writer.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/writer.go b/writer.go
index 52f5273..294a6ec 100644
--- a/writer.go
+++ b/writer.go
@@ -531,6 +531,9 @@ func (fw *Writer) flushGuts(flushType FlushType) bool {
 		if !writeStaticBlock(fw, tokens, false) {
 			return false
 		}
+		if !fw.outputBitsFlushWholeBytes() {
+			return false
+		}
 
 	case SyncFlush:
 		if !writeStoredBlock(fw, nil, false) {
@@ -914,6 +917,28 @@ func (fw *Writer) outputBitsFlush() bool {
 	return fw.outputBufferWrite(tmp[:n])
 }
 
+// outputBitsFlushWholeBytes hands all complete bytes to the output buffer.  Up
+// to 7 bits remain pending.
+func (fw *Writer) outputBitsFlushWholeBytes() bool {
+	n := fw.obLen / bitsPerByte
+	if n == 0 {
+		return true
+	}
+
+	var tmp [bytesPerBlock]byte
+	bytesFromBlock(binary.LittleEndian, tmp[:], fw.obBlock)
+	pendingBlock := fw.obBlock >> (n * bitsPerByte)
+	pendingLen := fw.obLen - (n * bitsPerByte)
+	fw.obLen = 0
+	fw.obBlock = 0
+	if !fw.outputBufferWrite(tmp[:n]) {
+		return false
+	}
+	fw.obLen = pendingLen
+	fw.obBlock = pendingBlock
+	return true
+}
+
 func (fw *Writer) sendEvent(event Event) {
 	event.InputBytesTotal = fw.inputBytesTotal
 	event.InputBytesStream = fw.inputBytesStream
-- 
2.43.0


From c973ee7ed4f3a552023a5b9f484b8a310d09e7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 17/29] fix: split stored blocks that exceed 65535 bytes

---
 writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/writer.go b/writer.go
index 294a6ec..9e03228 100644
--- a/writer.go
+++ b/writer.go
@@ -1037,6 +1037,12 @@ func compressTokens(bw bitwriter, data []byte, tokens []token, isFinal bool) boo
 
 	storedLength := (uint64(len(data)) << 3) + 35
 	if storedLength < dynamicCounter.length() {
+		for uint(len(data)) > uint(math.MaxUint16) {
+			if !writeStoredBlock(bw, data[:math.MaxUint16], false) {
+				return false
+			}
+			data = data[math.MaxUint16:]
+		}
 		return writeStoredBlock(bw, data, isFinal)
 	}
 	if staticCounter.length() <= dynamicCounter.length() {
-- 
2.43.0


From 870cd0078f5467149d9251bd8d82b56170e2121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 18/29] fix: limit Huffman code lengths to what DEFLATE can
 represent

---
 huffman.go | 18 ++++++++++++++++++
 writer.go  |  6 +++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/huffman.go b/huffman.go
index e920bc7..e3b45a8 100644
--- a/huffman.go
+++ b/huffman.go
@@ -14,6 +14,9 @@ const (
 	physicalNumLLCodes = 288
 	physicalNumDCodes  = 32
 	physicalNumXCodes  = 19
+
+	maxCodeSizeLLD = 15
+	maxCodeSizeX   = 7
 )
 
 var scramble = [physicalNumXCodes]byte{16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15}
@@ -67,6 +70,21 @@ func getFixedHuffEncoders() (*huffman.Encoder, *huffman.Encoder) {
 	return &gFixedHuffmanEncoderLL, &gFixedHuffmanEncoderD
 }
 
+// initHuffEncoder initializes an Encoder whose codes are at most maxSize bits
+// long.  It may modify frequencies.
+func initHuffEncoder(e *huffman.Encoder, numSymbols int, frequencies []uint32, maxSize byte) {
+	e.Init(numSymbols, frequencies)
+	for e.MaxSize() > maxSize {
+		// Flatten the distribution, without losing any symbol.
+		for symbol, freq := range frequencies {
+			if freq != 0 {
+				frequencies[symbol] = (freq + 1) / 2
+			}
+		}
+		e.Init(numSymbols, frequencies)
+	}
+}
+
 // SizeList represents a list of symbol sizes in a Canonical Huffman Code.
 type SizeList []byte
 
diff --git a/writer.go b/writer.go
index 9e03228..b7161b5 100644
--- a/writer.go
+++ b/writer.go
@@ -1024,10 +1024,10 @@ func compressTokens(bw bitwriter, data []byte, tokens []token, isFinal bool) boo
 	freqLL, freqD := studyFrequenciesLLD(tokens)
 
 	var hLL huffman.Encoder
-	hLL.Init(physicalNumLLCodes, freqLL)
+	initHuffEncoder(&hLL, physicalNumLLCodes, freqLL, maxCodeSizeLLD)
 
 	var hD huffman.Encoder
-	hD.Init(physicalNumDCodes, freqD)
+	initHuffEncoder(&hD, physicalNumDCodes, freqD, maxCodeSizeLLD)
 
 	var dynamicCounter bitcounter
 	writeDynamicBlock(&dynamicCounter, &hLL, &hD, tokens, isFinal)
@@ -1189,7 +1189,7 @@ func writeDynamicBlock(bw bitwriter, hLL *huffman.Encoder, hD *huffman.Encoder,
 	freqX := studyFrequenciesX(*xtokens)
 
 	var hX huffman.Encoder
-	hX.Init(physicalNumXCodes, freqX)
+	initHuffEncoder(&hX, physicalNumXCodes, freqX, maxCodeSizeX)
 
 	sX := hX.SizeBySymbol()
 	numX := uint(physicalNumXCodes)
-- 
2.43.0


From 4da953b19e80a89c1d5d152a5b3142e7389744f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 19/29] fix: honour FixedStrategy

---
 writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/writer.go b/writer.go
index b7161b5..0836b9a 100644
--- a/writer.go
+++ b/writer.go
@@ -1017,6 +1017,9 @@ func compressSlow(fw *Writer, consumeAll bool, good, lazy, nice, chain uint) boo
 
 	data := bb.Bytes()
 	*tokens = append(*tokens, makeStopToken())
+	if fw.strategy == FixedStrategy {
+		return writeStaticBlock(fw, *tokens, false)
+	}
 	return compressTokens(fw, data, *tokens, false)
 }
 
-- 
2.43.0


From 7e0994a1d5f66262e2c1ddfb0a21af547444fb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 20/29] fix: infer the data type and OS type of each stream
 anew

---
 writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/writer.go b/writer.go
index 0836b9a..6bdc8e7 100644
--- a/writer.go
+++ b/writer.go
@@ -570,6 +570,10 @@ func (fw *Writer) writeHeader() bool {
 		Type: StreamBeginEvent,
 	})
 
+	// Values which are inferred for this stream must not outlive it.
+	explicitHeader := fw.header
+	defer func() { fw.header = explicitHeader }()
+
 	if fw.header.DataType == UnknownData {
 		fw.header.DataType = BinaryData
 		if buf := fw.hybrid.PrepareBulkRead(4096); isText(buf) {
-- 
2.43.0


From 9ddf0d5dd1d2141cc937d453b350454d786c114c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 21/29] fix: do not retain the caller's extra data records in
 SetHeader

---
 header.go | 12 ++++++++++++
 writer.go |  1 +
 2 files changed, 13 insertions(+)

diff --git a/header.go b/header.go
index fc1f419..ed28be0 100644
--- a/header.go
+++ b/header.go
@@ -51,6 +51,18 @@ func (xd *ExtraData) Parse(raw []byte) {
 	}
 }
 
+func (xd ExtraData) clone() ExtraData {
+	if xd.Records == nil {
+		return ExtraData{}
+	}
+
+	records := make([]ExtraDataRecord, len(xd.Records))
+	for index, rec := range xd.Records {
+		records[index] = ExtraDataRecord{ID: rec.ID, Bytes: append([]byte(nil), rec.Bytes...)}
+	}
+	return ExtraData{Records: records}
+}
+
 // AsBytes returns the binary representation of this ExtraData field.
 func (xd *ExtraData) AsBytes() []byte {
 	var length uint
diff --git a/writer.go b/writer.go
index 6bdc8e7..c2fe2e3 100644
--- a/writer.go
+++ b/writer.go
@@ -295,6 +295,7 @@ func (fw *Writer) SetHeader(header Header) error {
 	errlist = checkHeaderExtraData(header, errlist)
 
 	if len(errlist) == 0 {
+		header.ExtraData = header.ExtraData.clone()
 		fw.mu.Lock()
 		fw.header = header
 		fw.mu.Unlock()
-- 
2.43.0


From 69c61e4af936f86695d4c7e23988515771e3d818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:04 +0000
Subject: [PATCH 22/29] fix: do not start reading after Close was called before
 the first Read

---
 reader.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 17fb3e6..25618ba 100644
--- a/reader.go
+++ b/reader.go
@@ -311,7 +311,19 @@ func (fr *Reader) startReadThread() {
 }
 
 func (fr *Reader) stopReadThreadLocked() {
-	if fr.readThreadWasStarted && !fr.readThreadWasStopped {
+	if !fr.readThreadWasStarted {
+		// Never start a background thread once closed.
+		fr.readThreadWasStarted = true
+		fr.readThreadWasStopped = true
+		fr.outputErrorWasSet = true
+
+		fr.mu2.Lock()
+		fr.outputError = context.Canceled
+		fr.mu2.Unlock()
+		return
+	}
+
+	if !fr.readThreadWasStopped {
 		fr.mu2.Lock()
 		fr.outputError = context.Canceled // FIXME
 		fr.outputBuffer.Clear()
-- 
2.43.0


From d72b7b771cce44deb89d850ef917979f90646688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:42 +0000
Subject: [PATCH 23/29] fix: reject a Header with an invalid DataType

SetHeader refused an OSType out of range but accepted any DataType, which
was then written as if it were BinaryData.
---
 writer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/writer.go b/writer.go
index c2fe2e3..93546d6 100644
--- a/writer.go
+++ b/writer.go
@@ -291,6 +291,7 @@ func (fw *Writer) SetHeader(header Header) error {
 	errlist = checkHeaderFileName(header, errlist)
 	errlist = checkHeaderComment(header, errlist)
 	errlist = checkHeaderLastModified(header, errlist)
+	errlist = checkHeaderDataType(header, errlist)
 	errlist = checkHeaderOSType(header, errlist)
 	errlist = checkHeaderExtraData(header, errlist)
 
@@ -345,6 +346,13 @@ func checkHeaderLastModified(header Header, errlist []error) []error {
 	return errlist
 }
 
+func checkHeaderDataType(header Header, errlist []error) []error {
+	if !header.DataType.IsValid() {
+		errlist = append(errlist, errors.New("Header.DataType is not valid"))
+	}
+	return errlist
+}
+
 func checkHeaderOSType(header Header, errlist []error) []error {
 	if !header.OSType.IsValid() {
 		errlist = append(errlist, errors.New("Header.OSType is not valid"))
-- 
2.43.0


From dbb291a6a4afd8670d7e366410a48ac40e176f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 24/29] fix: do not report the end of a stream whose output was
 discarded by Close

A Close or Reset in mid-stream discards output which was not delivered yet.
If the end of the stream was already in the input buffer, StreamEndEvent was
still sent, with checksums that do not match the stream.
---
 reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reader.go b/reader.go
index 25618ba..8e751a9 100644
--- a/reader.go
+++ b/reader.go
@@ -362,6 +362,11 @@ func (fr *Reader) readThread() {
 
 		fr.decodeBufferMustFlush()
 
+		if fr.stopIsForced {
+			// Some of the output was discarded, the checksums are incomplete.
+			break
+		}
+
 		if !fr.readFooter() {
 			break
 		}
-- 
2.43.0


From 86a9759168288e7706865804dbde88b9e36883f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:20 +0000
Subject: [PATCH 25/29] fix: do not hand out the fixed code tables in trace
 events

The sizes in the BlockTreesEvent of a static block were those of the global
decoders.  A tracer which overwrote what it had been given changed what every
other Reader reported.
---
 reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 8e751a9..2fa76ae 100644
--- a/reader.go
+++ b/reader.go
@@ -827,8 +827,8 @@ func (fr *Reader) readFlateBlockStaticHuffman(isFinal bool) bool {
 			IsFinal: isFinal,
 		},
 		Trees: &TreesEvent{
-			LiteralLengthSizes: fr.hLL.SizeBySymbol(),
-			DistanceSizes:      fr.hD.SizeBySymbol(),
+			LiteralLengthSizes: append([]byte(nil), fr.hLL.SizeBySymbol()...),
+			DistanceSizes:      append([]byte(nil), fr.hD.SizeBySymbol()...),
 		},
 	})
 
-- 
2.43.0


From efc6f11b72d13e35617b13a36e8ea36aefac64b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 26/29] fix: do not share extra data records with trace events

The StreamHeaderEvent of a Writer shared its records with the header in force.
Changing what the event had handed out changed the header of later streams.
---
 writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/writer.go b/writer.go
index 93546d6..c6224e7 100644
--- a/writer.go
+++ b/writer.go
@@ -615,6 +615,7 @@ func (fw *Writer) writeHeader() bool {
 
 	h := new(Header)
 	*h = fw.header
+	h.ExtraData = h.ExtraData.clone()
 	fw.sendEvent(Event{
 		Type:   StreamHeaderEvent,
 		Header: h,
-- 
2.43.0


From 4b9fc36bbb383c7db1080edf1597b15d89a85e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:54 +0000
Subject: [PATCH 27/29] fix: do not crash on an empty dictionary file

---
 cmd/gzip/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gzip/main.go b/cmd/gzip/main.go
index 2b32ef7..71054a7 100644
--- a/cmd/gzip/main.go
+++ b/cmd/gzip/main.go
@@ -237,7 +237,7 @@ func doCompressOrDecompress(w io.Writer, r io.Reader, dict []byte) {
 	opts[3] = flate.WithCompressLevel(flagCLevel.Value)
 	opts[4] = flate.WithMemoryLevel(flagMLevel.Value)
 	opts[5] = flate.WithWindowBits(flagWBits.Value)
-	if dict != nil {
+	if len(dict) != 0 {
 		opts = append(opts, flate.WithDictionary(dict))
 	}
 
-- 
2.43.0


From 4c74c6843238014dad5bc0c121e14d3d7041acc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:47 +0000
Subject: [PATCH 28/29] fix: deliver decoded data without waiting for a full
 input buffer

---
 reader.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/reader.go b/reader.go
index 2fa76ae..86de41d 100644
--- a/reader.go
+++ b/reader.go
@@ -475,7 +475,7 @@ func (fr *Reader) readFooter() bool {
 }
 
 func (fr *Reader) readHeaderAuto() bool {
-	if fr.inputBuffer.Len() < 2 {
+	for fr.inputBuffer.Len() < 2 && fr.inputError == nil {
 		fr.inputBufferFill()
 	}
 
@@ -1201,14 +1201,36 @@ func (fr *Reader) inputBufferFill() {
 		return
 	}
 
+	// The source may not have more data for a long time, so what was decoded
+	// so far must not wait for it.
+	fr.decodeBufferMustFlush()
+
+	if fr.stopIsForced {
+		fr.inputError = io.EOF
+		return
+	}
+
 	// Do not hold the lock while the source is busy.  Nobody else touches
 	// inputBuffer until readThread has stopped.
 	r := fr.r
-	fr.mu1.Unlock()
-	_, err := fr.inputBuffer.ReadFrom(r)
-	fr.mu1.Lock()
+	buf := fr.inputBuffer.PrepareBulkWrite(fr.inputBuffer.Size())
+	for len(buf) != 0 {
+		fr.mu1.Unlock()
+		nn, err := r.Read(buf)
+		fr.mu1.Lock()
+
+		assert.Assertf(nn >= 0, "Read() returned %d, which is < 0", nn)
+		assert.Assertf(nn <= len(buf), "Read() returned %d, which is > len(buffer) %d", nn, len(buf))
 
-	fr.inputError = err
+		if err == nil && fr.stopIsForced {
+			err = io.EOF
+		}
+		if nn != 0 || err != nil {
+			fr.inputBuffer.CommitBulkWrite(uint(nn))
+			fr.inputError = err
+			return
+		}
+	}
 }
 
 func (fr *Reader) inputBufferRead(p []byte) ([]byte, bool) {
-- 
2.43.0


From d337ad4d2dd2119095c2072bc2afa20186d9f370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:20 +0000
Subject: [PATCH 29/29] fix: refuse input files in the gzip command instead of
 reading standard input

---
 cmd/gzip/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gzip/main.go b/cmd/gzip/main.go
index 71054a7..1ce07b2 100644
--- a/cmd/gzip/main.go
+++ b/cmd/gzip/main.go
@@ -196,7 +196,7 @@ func main() {
 		defer pprof.StopCPUProfile()
 	}
 
-	if flagStdout {
+	if flagStdout && getopt.NArgs() == 0 {
 		doCompressOrDecompress(os.Stdout, os.Stdin, dict)
 	} else {
 		log.Logger.Fatal().
-- 
2.43.0

