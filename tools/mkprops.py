#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that the long lines stay reviewable).
import json
W="writer.go"; R="reader.go"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Compression followed by decompression is lossless",
 "For every configuration and every history of writes, flushes, finished streams and resets that meets no fault, the concatenation of what the compressor emitted decompresses - by this package's decompressor and by an independent one - to exactly the bytes that were written, in order, followed by a clean end of file. This holds whatever the data, however it is cut into calls, and while compressor and decompressor run concurrently over a pipe.",
 ["inputs","histories","configurations","schedules"],
 "all byte strings (empty, tiny, incompressible, highly skewed, repetitive, longer than every internal buffer) x all options (format, strategy, compression level, memory level, window, dictionary) x all sequences of Write/Flush/Close/Reset calls x all interleavings of the two ends",
 "The tests compress two fixed texts in one or two calls with one or two configurations; buffers never wrap, codes never reach the length limit, blocks never exceed the stored-block limit and streams are never concatenated or reset.",
 [W,R,"token.go","analysis.go","huffman.go"],
 [("LZ77 tokenisation and block emission","writer.go: compressStore/compressSlow/compressTokens"),("token coding","token.go: encodeLLD/encodeX, analysis.go: encodeTreeTokens"),("block decoding and window","reader.go: decodeHuffmanBlock/decodeBufferWrite")],
 [("hybrid","unconsumed input plus sliding window of the compressor","writer.go: Writer.hybrid"),("window","sliding window of the decompressor","reader.go: Reader.window")],
 ["bytes reaching the sink","bytes returned by Read"])

p("C02","Everything emitted conforms to RFC 1950/1951/1952",
 "Whatever calls produced it, every finished stream that reaches the sink is a valid stream of the configured container format: correct magic, flags and header checksum, only legal DEFLATE blocks, codes, lengths and distances, exactly one final block, and a trailer whose checksum and length are those of the data written to that stream. Nothing is emitted before, between or after the streams.",
 ["inputs","histories","configurations"],
 "all call histories, data and options; concatenated streams; streams following a reset",
 "Tests compare a handful of outputs with golden bytes; they cannot quantify over code-length distributions, block choices, buffer boundaries or multi-stream histories.",
 [W,"token.go","analysis.go","bitwriter.go","internal/adler32/adler32.go","internal/crc32/crc32.go"],
 [("container headers and footers","writer.go: writeHeaderZlib/writeHeaderGZIP/writeFooterZlib/writeFooterGZIP"),("block writers","writer.go: writeStoredBlock/writeStaticBlock/writeDynamicBlock"),("running checksums","writer.go: inputBufferRead/inputBufferAdvance")],
 None,["bytes reaching the sink, judged by an independent parser and by Go's standard decoders"])

p("C03","The decompressor accepts every valid stream and decodes it exactly",
 "Any stream or concatenation of streams that is valid under RFC 1950/1951/1952 and within the configured window - from any encoder, with any legal mixture of block types, code lengths, match lengths and distances, optional header fields and preset dictionary - is decoded to exactly its content and then reports a clean end of file. With automatic format detection each concatenated stream is recognised as what it is, wherever its header falls relative to internal buffers.",
 ["inputs","configurations","schedules"],
 "all valid streams (including ones this package's own compressor never produces) x reader options x arrival patterns of the source",
 "Tests decode three fixed streams; other encoders' choices (length-258 matches, distance 32768, window overlap, repeat codes crossing alphabets, degenerate distance codes, large stored blocks, header fields, many members) never occur.",
 [R,"header.go","huffman.go"],
 [("format detection","reader.go: readHeaderAuto"),("header parsing","reader.go: readHeaderZlib/readHeaderGZIP*"),("tree and symbol decoding","reader.go: readDynamicTrees/decodeX/decodeLL/decodeD/readSymbol"),("stream loop","reader.go: readThread")],
 None,["bytes and error returned by Read"])

p("C04","Decompression does not depend on timing, fragmentation or buffer sizes",
 "For one compressed input, valid or not, and one configuration, the sequence of bytes delivered and the final error are the same for every way the source splits, delays or stalls its reads, every size of buffer the caller passes and every interleaving of the caller with the background decompression.",
 ["schedules","inputs","configurations"],
 "all partitions of the source into reads (1 byte .. everything, zero-length reads, data together with EOF), all caller buffer sizes, all schedules of caller and background goroutine",
 "Tests read with one call pattern from in-memory readers under the real Go scheduler; nothing controls interleavings or fragmentation.",
 [R],
 [("hand-off of decoded data and of the error","reader.go: decodeBufferMustFlush/closeWithError/Read"),("input refill","reader.go: inputBufferFill/inputBitsFill")],
 [("outputBuffer/outputError","data and terminal error shared between goroutines","reader.go: Reader, guarded by mu2")],
 ["results of Read"])

p("C05","Corrupted checksummed streams never pass as good data",
 "If the bytes of a zlib or gzip stream are altered in storage or transit (bits flipped, bytes changed, dropped, duplicated, inserted or swapped), then a decompression that ends cleanly has delivered exactly the content the altered bytes validly describe, checksum and length included; in every other case the caller gets an error that is not a clean end of file, and everything delivered before it is a prefix of what the stream's blocks describe.",
 ["fault_sequences","inputs"],
 "all positions and kinds of alteration of all streams, including header, code-length tables, block headers and trailer",
 "Tests contain no corrupted stream; the space of alterations and the schedule-dependent delivery of the error are out of reach of examples.",
 [R],
 [("trailer verification","reader.go: readFooterZlib/readFooterGZIP"),("syntax verification","reader.go: corruptf call sites"),("error hand-off","reader.go: closeWithError")],
 None,["results of Read"])

p("C06","A stream cut short is always reported, after its intact prefix",
 "If the source ends at any point strictly inside a stream, the caller receives an unexpected-end-of-file error and never a clean end of file, and before that error receives exactly the data that is completely described by the bytes that did arrive. The same holds for a later stream of a concatenation, after the whole content of the streams before it.",
 ["crash_points","inputs","schedules"],
 "all cut points (header, optional fields, inside a block header, code table, symbol, stored data, trailer) x all streams and formats x schedules",
 "No test truncates anything; every byte position of every stream is a distinct crash point.",
 [R],
 [("end-of-input classification","reader.go: propagateError/inputBitsFill/inputBufferRead"),("prefix delivery","reader.go: decodeBufferMustFlush/closeWithError")],
 None,["results of Read"])

p("C07","Source errors surface unchanged, in order, and stick",
 "When the source fails with an error, the caller receives all data fully described by the bytes read before the failure and then that same error value, on that and every later read; the source is not read again after it failed. An error that arrives together with the last bytes of a complete input does not lose data.",
 ["fault_sequences","schedules"],
 "all error positions and values, errors delivered with or without data, in any state of the decompressor, all schedules",
 "No test injects a source error.",
 [R],
 [("error capture","reader.go: inputBufferFill"),("error propagation","reader.go: propagateError/closeWithError/Read")],
 [("inputError","first error of the source","reader.go")],
 ["results of Read","calls made on the source"])

p("C08","Sink failures are never hidden and never corrupt what was accepted",
 "If the sink fails (error, partial write, no space, failing flush or sync), the call during which it failed and every later write, flush or close up to the next reset reports failure instead of success, no further byte is sent to the sink, and the bytes the sink accepted are a prefix of what a fault-free run of the same calls would have produced. After close, further writes, flushes and closes report that the compressor is closed.",
 ["fault_sequences","crash_points","histories"],
 "every sink call as failure point, partial acceptance of 0..n bytes, errors from optional flush/sync methods, all call histories",
 "No test uses a failing sink.",
 [W],
 [("sticky error state","writer.go: outputBufferFlush, Write/Flush/Close state checks"),("optional sink flush/sync","writer.go: flushImpl")],
 [("state/err","open/closing/closed/error state machine and sticky error","writer.go: Writer.state, Writer.err")],
 ["return values of Write/Flush/Close","calls made on the sink"])

p("C09","A successful flush makes all earlier data recoverable from the sink",
 "After a partial, sync, full or finish flush or a close returns success, everything written before it can be decoded from the bytes the sink has received (finish and close: as complete streams with trailer), and a sink offering flush or sync has had those invoked after the last of these bytes, so that a crash right after loses nothing. After a sync or full flush the output additionally ends on a byte boundary with an empty stored block.",
 ["crash_points","histories","configurations"],
 "all flush kinds at all points of all write histories; crash immediately after any acknowledged flush, with or without sink-level durability",
 "Tests flush at most once, in one configuration, and only decode the finished stream.",
 [W,"enum_flushtype.go"],
 [("flush sequence","writer.go: flushImpl/flushGuts"),("bit accumulator drain","writer.go: outputBitsFlush")],
 [("obBlock/obLen","bits not yet handed to the sink","writer.go")],
 ["bytes and calls reaching the sink when Flush/Close return"])

p("C10","A full flush is a restart point",
 "Data compressed after a successful full flush can be decoded starting at that byte position without any earlier byte of the stream: decoding from there as raw DEFLATE yields exactly what was written afterwards, and no match refers to data before that point. This remains true for every full flush of every stream, with or without a preset dictionary.",
 ["crash_points","histories","inputs"],
 "all histories with full flushes at arbitrary points, loss of every byte before the restart point",
 "No test decodes from a restart point.",
 [W],
 [("window forgetting","writer.go: flushGuts FullFlush -> hybrid.WindowClear")],
 [("hybrid window","matches may only reach back to the last full flush","writer.go")],
 ["bytes reaching the sink"])

p("C11","Reset leaves no trace of the past",
 "A compressor or decompressor that is reset - after success, after an error, after close, or (decompressor) in the middle of a stream while its background work is blocked - behaves exactly like a newly constructed one with the same accumulated options (and, for a compressor, the same explicitly set header): same output bytes, same results and errors, same trace events apart from lifetime totals, and no byte, inferred metadata, window, dictionary or error state of its earlier use visible. Nothing reaches the old sink and nothing is read from the old source afterwards. Reset itself completes.",
 ["histories","fault_sequences","schedules"],
 "all prior histories (including sink/source failures at any point), all option changes between uses, all schedules of the background goroutine at reset time",
 "Tests reuse one object once, after a clean finish.",
 [W,R],
 [("state re-initialisation","writer.go: Reset, reader.go: Reset/stopReadThreadLocked")],
 None,["bytes reaching the new sink","results of Read after Reset","the old source is not read after Reset"])

p("C12","Concurrent use of one compressor is atomic per call",
 "When several goroutines write, flush, set headers and query one compressor, the finished output decodes to the concatenation of whole, unbroken write payloads in some order consistent with real time, each successful write included exactly once, and flush guarantees cover every write that completed before the flush began. No interleaving panics, deadlocks or produces invalid output.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of concurrent Write/Flush/SetHeader/getter/Close calls at every synchronisation point, with and without sink faults",
 "The tests are single threaded.",
 [W],
 [("call-level mutual exclusion","writer.go: mu in Write/Flush/Close/SetHeader/Reset and getters")],
 [("mu","serialises calls","writer.go: Writer.mu")],
 ["history of calls and returns","bytes reaching the sink"])

p("C13","Concurrent readers share the stream without loss or duplication",
 "When several goroutines read from one decompressor, every byte of the content is delivered to exactly one of them, each read returning a contiguous piece in stream order, and after the last byte every one of them receives the terminal error. No interleaving of readers, background work, getters and close loses a wake-up.",
 ["schedules","histories"],
 "all interleavings of 1..n readers with any buffer sizes, the background goroutine, slow sources and close",
 "The tests have one reader under the real scheduler.",
 [R],
 [("condition variables cv1/cv2","reader.go: Read/decodeBufferMustFlush/closeWithError"),("lazy start","reader.go: startReadThread")],
 [("outputBuffer","decoded bytes not yet delivered","reader.go")],
 ["history of reads"])

p("C14","Every call completes; close releases everything",
 "As long as the source and the sink answer every call, each read, write, flush, reset and close completes within a bounded number of steps under every schedule: no deadlock, no lost wake-up, no endless loop. Closing a decompressor at any moment - before the first read, in mid-stream, during reads by other goroutines, after an error, more than once - returns, wakes blocked readers with an error, and leaves no background goroutine and no further access to the source.",
 ["schedules","crash_points","fault_sequences"],
 "close, cancellation and fault at every synchronisation point, every interleaving, endless or stalling but live sources",
 "Deadlocks and leaks depend on interleavings that no test controls.",
 [R,W],
 [("shutdown protocol","reader.go: stopReadThreadLocked/readThread"),("condition variables","reader.go: cv1, cv2")],
 [("stopIsForced/readThreadWasStarted/readThreadWasStopped","shutdown handshake","reader.go")],
 ["completion of calls in simulated steps","live goroutines","calls on the source"])

p("C15","No data race in any concurrent use the API allows",
 "Whenever goroutines use the calls that are safe for concurrent use on one compressor or decompressor (reads, writes, flushes, getters, header setting, close, and reset of a compressor), or use separate objects sharing only package-level state, every pair of conflicting memory accesses is ordered by synchronisation.",
 ["schedules","histories"],
 "all interleavings of public calls on shared objects, and of independent objects sharing pools and tables",
 "Tests are single threaded; running them under the race detector observes only the one schedule that happened.",
 [R,W,"pools.go","internal/crc32/crc32.go","internal/adler32/adler32.go"],
 [("locking discipline","reader.go: mu1/mu2, writer.go: mu"),("pools and lazy tables","pools.go, internal/crc32/crc32.go: sync.Once")],
 None,["happens-before relation over memory accesses"])

p("C16","Container metadata survives and bad metadata is refused",
 "Any header accepted by the compressor (file name, comment, modification time, data type, operating system, extra records) is carried by every gzip stream it starts afterwards and is reported unchanged by any conforming decompressor, including this one, for each stream of a concatenation. A header that cannot be represented (a NUL byte in name or comment, a path separator in the name, fields beyond the documented length limits, a time, operating system or data type out of range) is rejected with an error and leaves the header in force untouched; a data type that was not given is inferred from the stream's own content (plain text is announced as text, content that starts with a control byte is not), and what one stream's data implied about its metadata does not leak into the next.",
 ["inputs","histories","configurations"],
 "all header values, valid and invalid, histories of header changes between and inside streams, concatenations and resets",
 "Tests use one fixed header and one stream.",
 [W,R,"header.go","enum_ostype.go","enum_datatype.go"],
 [("validation","writer.go: SetHeader/checkHeader*"),("encoding","writer.go: writeHeaderGZIP*"),("decoding","reader.go: readHeaderGZIP*, header.go: Parse")],
 [("header","header for the next stream","writer.go: Writer.header")],
 ["bytes of the gzip header","header events of the decompressor"])

p("C17","Trace events tell the truth, in order, for every stream",
 "Each tracer receives, per stream, begin, header, then for each block begin, trees, end in order, then end and close, with byte counters, format, block types, finality, code tables and checksums that match the actual stream; decompressing what was compressed reports the same blocks, tables and checksums as compressing it did. While decompressing, a stream's header and each block's description are received before any of the data they describe is delivered, and everything before the end of file is reported. When a fault ends a stream early the events received are a prefix of that sequence and claim nothing that did not happen. What a tracer was handed keeps saying the same for as long as it is kept.",
 ["histories","fault_sequences","schedules"],
 "all streams, configurations, flush patterns, concatenations, faults and schedules",
 "Tests look at header capture once.",
 [W,R,"trace.go","enum_eventtype.go"],
 [("event emission","writer.go: sendEvent and call sites; reader.go: sendEvent and call sites; bitwriter.go: counters ignore events")],
 None,["calls on registered tracers"])

p("C18","Configuration is honoured on the wire, stream by stream",
 "The emitted blocks respect the configuration in force for their stream: level 0 emits data only in stored blocks, Huffman-only never emits a match, run-length only matches at distance 1, fixed never emits dynamic code tables, no match reaches further back than the configured and announced window or, without a dictionary, before the start of the stream, a dictionary is announced where the format provides for it, and the header carries the level hint (fastest, fast, default, best) of the level in force. The accessors of both sides report the configuration in force. Options given at reset apply to all later streams and to none before.",
 ["configurations","histories","inputs"],
 "all option combinations, changed by reset between streams at any point of a history, all data",
 "Tests check one configuration each and never inspect individual matches.",
 [W,"options.go","enum_strategy.go","enum_wbits.go"],
 [("option plumbing","options.go; writer.go: hybridOptions/compressConfig/Reset"),("header announcement","writer.go: writeHeaderZlib")],
 None,["tokens of the emitted blocks"])

p("C19","The command-line tool never reports success for lost or wrong data",
 "The gzip command exits with status 0 only if its standard input was read to the end without error and its standard output has accepted the complete correct result (compressed stream when compressing, decompressed content when decompressing), and a memory profile asked for has been written; on any input error, corrupt or truncated input, unusable option, input file it does not read, profile it cannot write or output error it exits with a non-zero status and a message on standard error. Options selecting format, level, strategy, window, dictionary and header fields are honoured in the stream it writes, whichever of its spellings a flag is given in (long, short, or a digit for the level) and in whatever order; flags about input files, logging and profiling change nothing in the output. Compressing and then decompressing through the command with the same options restores the input.",
 ["fault_sequences","inputs","configurations"],
 "read errors, truncation and corruption on standard input, short writes, full disk and write errors on standard output at every position, all flags affecting the stream",
 "The command has no tests.",
 ["cmd/gzip/main.go","cmd/gzip/flags.go",R,W],
 [("copy and error checks","cmd/gzip/main.go: doCompressOrDecompress"),("fatal logging","cmd/gzip/main.go: log.Logger.Fatal")],
 None,["exit status","bytes on standard output","standard error"])

p("C20","No input can crash, hang or bloat the decompressor",
 "For every byte sequence a source may deliver, in any fragmentation and schedule, and for every reader configuration, decompression never panics (in the caller or in the background), terminates with a clean end or an error after work bounded by input and output size, and delivers only bytes described by the input, never remnants of other streams or of internal buffers.",
 ["inputs","fault_sequences","schedules"],
 "arbitrary and mutated byte sequences with all header fields, block types and code tables, all options",
 "No fuzzing exists; a background panic kills the process and cannot be caught by the caller.",
 [R,"header.go","token.go"],
 [("input validation","reader.go: corruptf call sites; header.go: Parse bounds")],
 None,["panics, termination, bytes and error returned by Read"])

p("C21","Caller-owned memory stays the caller's",
 "The compressor neither modifies nor retains the buffers, dictionaries and headers it is given beyond the call, and neither side's behaviour changes when the caller overwrites them afterwards; the decompressor writes only into the part of the caller's buffer it reports as filled, and objects used side by side never influence each other through shared pools or tables. Values returned by accessors and events stay as they were when handed out.",
 ["histories","schedules","inputs"],
 "all histories with the caller scribbling over every buffer right after each call, many objects interleaved, pooled memory poisoned between uses",
 "Tests never reuse or overwrite buffers nor interleave objects.",
 [W,R,"options.go","pools.go","header.go"],
 [("copies at the API boundary","options.go: WithDictionary/WithTracers; writer.go: hybrid.Write; accessors"),("pools","pools.go, bufferpool")],
 None,["bytes emitted and delivered","contents of caller buffers"])

p("C22","What has arrived is delivered",
 "Once a source has handed over everything the compressor emitted up to a successful partial, sync, full or finish flush or a close (or, for other producers' streams, up to the end of a stored block or of a stream), the decompressor delivers all content before that point without needing a further byte: also when the source then stays silent for ever, however the input was fragmented and whatever the memory level. It reports no end of file before the source does. Two parties can therefore converse over compressed connections, each message sent only after the previous one was received.",
 ["schedules","histories","inputs","fault_sequences"],
 "all streams and flush patterns, all fragmentations, silences of the source at any flush point or end of stream, caller buffer sizes, memory levels, schedules",
 "Tests read from sources that never fall silent; whether a read completes without more input depends on buffer sizes, fragmentation and the background goroutine.",
 [R,W],
 [("filling the input buffer","reader.go: inputBufferFill"),("handing over decoded data","reader.go: decodeBufferMustFlush, decodeBufferTryFlush"),("flush markers","writer.go: Flush")],
 None,["bytes returned by Read while the source is silent"])

p("C23","Buffering is bounded on both sides",
 "A consumer that stops reading holds the source back: however long the rest of the program runs, the decompressor takes no more from the source than what the next few buffers' worth of content needs, a bound that depends on the memory level alone. A compressor keeps back only a bounded amount: when incompressible content is written without flushing, all but the last few buffers' worth, again bounded by the memory level alone, has reached the sink and can be decompressed.",
 ["schedules","inputs","configurations"],
 "all streams and contents, pauses of the consumer at any point, all schedules of the background goroutine, small memory levels",
 "Tests read everything at once and look at output only at the end.",
 [R,W],
 [("ring buffers","reader.go: decodeBufferMustFlush waits for room; writer.go: hybridOptions, outputNumBits")],
 None,["position of the source while the consumer pauses","bytes received by the sink after each write"])

p("C24","Output stays small, whatever came before",
 "The DEFLATE data of a stream is never larger than its content plus a small fixed amount per half kibibyte and per flush (with the fixed strategy: nine bits per byte plus the same), however the writes are cut. Content that repeats itself within reach of what the strategy may exploit - a pattern inside the window, a piece of the preset dictionary, runs, or two symbols only - shrinks to a small fraction, at every level above 0 and also in a compressor that has finished, flushed, failed and been reset before.",
 ["inputs","histories","configurations"],
 "all contents, cuts into writes, flushes and earlier uses; configurations of every level, strategy, memory level and window size",
 "Tests compress a few files with a new compressor and compare with recorded output; what an earlier use leaves in the match finder or an option change leaves in its tables shows only in some histories.",
 [W,"token.go","huffman.go"],
 [("match finder set-up","writer.go: hybridOptions, Reset, writeHeader (window and dictionary)"),("choice of block type","writer.go: compressTokens")],
 None,["size of the DEFLATE data of each stream"])

p("C25","Failures are told apart and located",
 "When decompression fails although the source reports no error of its own, the error says why: data that violates the container or DEFLATE format (or needs another dictionary or a larger window) is reported as CorruptInputError, data that merely stops as an unexpected end of file, and neither is taken for the other. A CorruptInputError gives a reason and the place: the offsets of the violation in the whole input and in the stream concerned differ by where that stream starts, lie within the block, header or trailer in question or a few bytes behind the point where the violation is evident, and never beyond what the source has handed over - whatever the fragmentation and the schedule, in every stream of a concatenation and in a decompressor that was used before.",
 ["inputs","fault_sequences","histories"],
 "every way of damaging, cutting or concatenating streams of every format, every fragmentation and schedule of the background work, earlier uses of the decompressor",
 "Tests check that a few broken inputs fail; which error, and where, is decided by the order in which bytes arrive and are consumed and by counters that run over buffers, streams and resets.",
 ["errors.go",R],
 [("error construction","reader.go: corruptf, propagateError"),("byte counters","reader.go: inputBufferRead and friends")],
 None,["type and offsets of the error of Read","number of bytes the source has handed over"])

# pure functions: written down because users rely on them, but not decidable by simulation
p("N01","Enumerations print, parse and serialise consistently",
 "For every enumeration value (formats, strategies, levels, window sizes, flush, event, block, data and operating-system types), printing and parsing are inverse, JSON output is valid, and out-of-range values are reported as invalid rather than misnamed.",
 ["inputs"],"all enumeration values and all strings",
 "Tests cover a few values; the property is a pure function of its input.",
 ["enum_format.go","enum_strategy.go","enum_clevel.go","enum_mlevel.go","enum_wbits.go","enum_ostype.go"],
 [("tables","enum_*.go")])
p("N02","Option constructors accept exactly the documented values",
 "Each option constructor accepts every documented constant, rejects every other value immediately, and unset options select the documented defaults.",
 ["inputs"],"all argument values",
 "Pure argument validation, sampled by no test.",
 ["options.go"],[("assertions","options.go")])
p("N03","Extra-field records encode and parse as inverse operations",
 "Encoding any list of extra-field records and parsing the result yields the same list, and the encoded length is the sum of the record lengths plus four bytes each.",
 ["inputs"],"all record lists",
 "Pure data transformation (its use inside streams is C16, its robustness against hostile input C20).",
 ["header.go"],[("AsBytes/Parse","header.go")])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
