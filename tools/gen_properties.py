#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            mechanism=[dict(name=a, where=b) for a, b in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=list(observe), hook_needed=hook)))

prop("P01", "Hybrid compressor output decompresses to exactly the input",
 "For every byte string and every accepted combination of compressor options, the stream produced by the default (brotli-hybrid) compressor decompresses without error to exactly the original bytes. This holds for every window size, quality, context-mixing, prior-depth, stride, adaptation-speed, context-map, literal-mode and command-optimizer setting, and with checksum checking on or off.",
 ["inputs","configurations"],
 "all byte strings x all accepted option combinations of the brotli-hybrid compressor x decoder checksum flag x serial/parallel decoder",
 "integration tests round-trip a few fixed files (alice29, random, ones) with a dozen option settings; option interactions, degenerate data and the IR optimizer are not covered",
 ["src/divans_compressor.rs","src/brotli_ir_gen.rs","src/codec/mod.rs","src/codec/literal.rs","src/codec/copy.rs","src/codec/dict.rs","src/codec/context_map.rs","src/codec/block_type.rs","src/codec/priors.rs","src/codec/weights.rs","src/ir_optimize/mod.rs","src/cmd_to_raw/mod.rs","src/divans_to_raw/mod.rs"],
 [("encoder and decoder share one state machine specialised on the arithmetic coder","src/codec/mod.rs"),
  ("literal nibble coding with adaptive priors and mixing weights","src/codec/literal.rs"),
  ("brotli command interception","src/brotli_ir_gen.rs"),
  ("command optimizer","src/ir_optimize/mod.rs")],
 [("distance_lru","last four distances, must evolve identically on both sides","src/codec/interface.rs"),
  ("CrossCommandBookKeeping","all adaptive state shared by encoder and decoder","src/codec/interface.rs")],
 ["DivansBrotliHybridCompressorReader/Writer","DivansDecompressorReader/Writer","divans_encode/divans_decode"])

prop("P02", "Built-in command-selection compressor round-trips any write history",
 "For every byte string, every option set and every way of splitting the bytes over successive writes (single bytes, empty writes, writes larger or smaller than the window), the stream produced by the built-in, non-brotli compressor decompresses to exactly the bytes written, in order. Output appears for any output-buffer sizes, and flushing completes.",
 ["inputs","histories","configurations"],
 "all byte strings x all split histories (including empty writes) x window sizes 10..24 x output-buffer sizes x options",
 "existing tests write fixed files with two or three fixed buffer sizes and large windows, so wrap-around of the internal ring buffer under small writes is never combined with small windows",
 ["src/divans_compressor.rs","src/raw_to_cmd/mod.rs","src/raw_to_cmd/hash_match.rs","src/cmd_to_divans/mod.rs","src/interface.rs"],
 [("input ring buffer turned into literal/copy commands","src/raw_to_cmd/mod.rs"),("encode/freeze-dry/flush loop","src/divans_compressor.rs")],
 [("ring_buffer_decode_index / ring_buffer_output_index","read and write position of the window ring","src/raw_to_cmd/mod.rs")],
 ["DivansExperimentalCompressorReader/Writer","divans_encode with brotli selection off"])

prop("P03", "Results do not depend on buffer sizes and every call makes progress",
 "The bytes a decoder produces depend only on the bytes of the stream, never on how the stream is split over calls or how large each output buffer is; what a compressor emits decodes to the same bytes whatever output-buffer sizes it was given, and compressing the same writes twice with the same options and buffers gives identical bytes. Each call reports consumed and produced counts that never move backwards or past the given buffers, bytes already produced are never rewritten, and as long as the caller supplies input and output space the operation finishes in a number of calls proportional to the data.",
 ["inputs","histories","configurations"],
 "all streams x all sequences of (input chunk, output chunk) sizes including zero-size and one-byte buffers, for each encoder and decoder",
 "existing tests use a small fixed set of buffer sizes (1, 2, 8, 15, 65535...) on fixed files and never compare one chunking with another",
 ["src/divans_compressor.rs","src/divans_decompressor.rs","src/brotli_ir_gen.rs","src/parallel_decompressor.rs","src/codec/mod.rs","src/codec/io.rs","src/codec/decoder.rs","src/mux.rs","src/ans.rs"],
 [("resumable state machines with NeedsMoreInput/NeedsMoreOutput","src/codec/mod.rs"),("header parsing across calls","src/divans_decompressor.rs")],
 [("EncodeOrDecodeState","where in the command grammar the coder is suspended","src/codec/mod.rs")],
 ["Compressor::encode/flush","Decompressor::decode","divans_encode/divans_decode"])

prop("P04", "A corrupted stream is never accepted as different content",
 "With checksum checking enabled (the default), a decoder given a stream that differs from a valid one by any burst of up to 32 bits, in the header, body, checksum or trailer, never reports successful completion having produced bytes different from the original content. A stream is reported as successfully decoded only when the header was valid, the checksum in the trailer matches all preceding bytes, and the trailer tag is intact.",
 ["inputs","fault_sequences"],
 "all valid streams x all single bursts of at most 32 bits (every position), plus random multi-byte edits, swaps, truncations and splices; serial and parallel decoders; any chunking",
 "tests flip no bits at all; error detection is quantified over every fault position and pattern",
 ["src/divans_decompressor.rs","src/codec/decoder.rs","src/codec/crc32.rs","src/codec/mod.rs","src/mux.rs","src/multithreading.rs"],
 [("CRC32C over header and all muxed bytes, compared with trailer","src/codec/decoder.rs"),("magic number and window checks","src/divans_decompressor.rs")],
 [("crc","running checksum of every byte consumed","src/codec/decoder.rs")],
 ["Decompressor::decode result","DivansDecompressorReader::read","DivansDecompressorWriter::close"])

prop("P05", "Arbitrary bytes are handled safely: no crash, panic, hang or runaway",
 "For every byte string presented as a compressed stream, with checksums on or off and any chunking, the decoder returns success, an error or a request for more input or output after a bounded amount of work per byte consumed or produced; it never panics, aborts, accesses memory out of bounds or loops without progress. After any failure the decoder can still be called and freed without crashing.",
 ["inputs","fault_sequences"],
 "all byte strings: random, mutated valid streams (checksum fixed up or ignored), and structure-aware forgeries of the entropy-coded command stream; any chunking; serial and parallel decoders",
 "the test-suite decodes only streams produced by its own encoder; malformed commands are unreachable",
 ["src/divans_decompressor.rs","src/codec/mod.rs","src/codec/copy.rs","src/codec/dict.rs","src/codec/literal.rs","src/codec/context_map.rs","src/codec/block_type.rs","src/cmd_to_raw/mod.rs","src/divans_to_raw/mod.rs","src/mux.rs","src/ans.rs","src/reader.rs"],
 [("bounds checks on distances, dictionary words and lengths","src/codec/copy.rs, src/codec/dict.rs, src/cmd_to_raw/mod.rs"),("fail-fast error state","src/codec/interface.rs")],
 [], ["Decompressor::decode","divans_decode","DivansDecompressorReader::read"])

prop("P06", "A truncated stream never completes successfully",
 "For every valid stream and every proper prefix of it, decoding the prefix never reports completion: the streaming interface asks for more input (or fails), and the reader adaptor surfaces an error instead of a clean end of file. Every byte produced before that point is a prefix of the original content.",
 ["inputs","crash_points"],
 "all valid streams x every truncation point x chunkings, serial and parallel, streaming API and Read adaptor, checksums on or off",
 "no test truncates a stream",
 ["src/codec/decoder.rs","src/divans_decompressor.rs","src/reader.rs","src/writer.rs","src/mux.rs","src/multithreading.rs"],
 [("end-of-stream marker, checksum and trailer must all be seen","src/codec/decoder.rs"),("UnexpectedEof / InvalidData on end of input","src/reader.rs, src/writer.rs")],
 [], ["DivansDecompressorReader::read","DivansDecompressorWriter::close/flush","Decompressor::decode"])

prop("P07", "Multithreaded decoding is equivalent to serial decoding and always ends",
 "For every stream, every chunking of it and every thread schedule, the multithreaded decoder succeeds exactly when the serial decoder does and then produces the same bytes; when they do not succeed, what each produced before stopping is a prefix of what the other produced. It never deadlocks or leaks its worker: decoding of valid, corrupted and truncated streams terminates, and freeing or dropping the decoder at any point, including mid-stream and after an error, returns promptly.",
 ["inputs","schedules","histories","crash_points"],
 "all streams (valid, corrupted, truncated) x chunkings x thread interleavings x the call after which the decoder is dropped",
 "tests run the parallel decoder to completion on a few valid files under whatever schedule happens; early drop, error paths and adversarial schedules are not exercised",
 ["src/multithreading.rs","src/threading.rs","src/parallel_decompressor.rs","src/codec/decoder.rs","src/codec/mod.rs","src/divans_decompressor.rs"],
 [("mutex/condvar work queue between main and worker","src/multithreading.rs"),("interruptible worker loop","src/parallel_decompressor.rs"),("command and data hand-off","src/threading.rs")],
 [("SyncQueue / ThreadData state","pending data, commands and result slots shared by both threads","src/threading.rs, src/multithreading.rs")],
 ["Decompressor::decode with multithread=true","divans_free_decompressor","Drop of DivansDecompressorReader"])

prop("P08", "The C API obeys its progress, bounds and error contract",
 "For every sequence of C-API calls on a live handle, the compressor and decompressor read only the given input, write only within the given output buffer at the reported offset, advance the offsets by exactly the amounts consumed and produced, and return the documented status codes; encode-then-flush through the C API yields a stream any decoder restores exactly. Setting a known option to an accepted value succeeds before encoding starts and takes effect on the stream; unknown options or options set after encoding started, and null handles, are refused with a failure status rather than ignored or crashing.",
 ["inputs","histories","configurations"],
 "all sequences of set_option/encode/flush/decode/free calls with arbitrary buffer sizes including zero, all documented option selectors and values, each constructor",
 "one C example compresses a fixed string in one way; offsets at partial buffers and option error paths are untested",
 ["src/ffi/mod.rs","src/ffi/compressor.rs","src/ffi/decompressor.rs","src/ffi/interface.rs","c/divans/ffi.h","c/example.c"],
 [("raw pointer/offset marshalling","src/ffi/mod.rs"),("option parsing and lazy compressor construction","src/ffi/compressor.rs")],
 [("DivansCompressorState","options still settable vs compressor built","src/ffi/compressor.rs")],
 ["divans_* exported C symbols"])

prop("P09", "The stream multiplexer reconstructs every sub-stream exactly",
 "For every sequence of byte chunks pushed to the two sub-streams, every linearisation into output buffers of any size, and every re-chunking of the linear bytes, demultiplexing yields for each sub-stream exactly the bytes pushed, in order, with nothing lost, duplicated or moved to the other sub-stream. The end-of-stream marker is recognised exactly at the end, for any chunking, and bytes after it are not consumed.",
 ["inputs","histories"],
 "all interleavings of pushes to both streams (0..>65536 bytes), partial linearisation with arbitrary buffers, flush, and demux with arbitrary chunking and trailing bytes",
 "test_mux samples a handful of fixed sizes and seeds, without trailing bytes or one-byte buffers at header boundaries",
 ["src/mux.rs"],
 [("chunk header encoding: stream id + length forms, max chunk choice","src/mux.rs"),("deserialize state machine","src/mux.rs")],
 [("bytes_remaining / cur_stream / leftover","demux state between calls","src/mux.rs")],
 ["divans::mux::{Mux,StreamMuxer,StreamDemuxer}"])

prop("P10", "The entropy coder decodes every symbol and bit sequence it encoded",
 "For every interleaving of multi-symbol and single-bit coding operations, under any valid probability distributions, decoding the bytes produced by the entropy coder with the same distributions returns the same symbols and bits in the same order, whatever the sequence length (across internal flush boundaries) and however the bytes are split when fed or drained. The probability reported on decode equals the one used on encode.",
 ["inputs","histories"],
 "all sequences of (distribution, symbol)/(probability, bit) pairs from length 0 to several times the internal block size; extreme and uniform distributions; any drain/feed chunking; several bit/symbol mixes",
 "unit tests use a few fixed distributions and lengths",
 ["src/ans.rs","src/arithmetic_coder.rs","src/probability/interface.rs"],
 [("two interleaved rANS states with block flush","src/ans.rs")],
 [("sym_count / start_freq / q / r","buffered symbols awaiting reverse coding","src/ans.rs")],
 ["ArithmeticEncoderOrDecoder trait on encoder and decoder"],
 "re-export of the private coder module")

prop("P11", "Adaptive probability models stay valid and invertible",
 "After any sequence of updates with any adaptation speed a model can be given, every symbol keeps a nonzero probability, the cumulative distribution is monotone and totals stay within the coder's range, and looking up a symbol from any point inside its interval returns that symbol with the same start and frequency used to encode it. The fast and reference implementations of the same model agree exactly, and averaging two valid models gives a valid model.",
 ["inputs","histories","configurations"],
 "all update sequences x speeds (increment, limit) in the codable range x all 2^15 lookup offsets x both-bit models x averaging weights",
 "tests run a handful of random update sequences with one or two speeds",
 ["src/probability/interface.rs","src/probability/frequentist_cdf.rs","src/probability/opt_frequentist_cdf.rs","src/probability/blend_cdf.rs","src/probability/numeric.rs"],
 [("count update and halving at limit","src/probability/frequentist_cdf.rs"),("cached inverse max","src/probability/opt_frequentist_cdf.rs")],
 [("cdf","16 cumulative counts","src/probability/frequentist_cdf.rs")],
 ["CDF16/CDF2/BaseCDF traits"],
 "re-export of the private probability module")

prop("P12", "Every legal command sequence survives encoding and decoding",
 "For every legal sequence of intermediate commands (literals, copies, dictionary words, block switches, prediction-mode changes) and every encoder option set, encoding the commands and decoding the stream yields exactly the bytes that a direct interpretation of the commands yields. This includes overlapping copies, copies up to the full window, every dictionary word and transform, zero-length commands, high-entropy literals, all literal context modes, context maps and mixing settings.",
 ["inputs","programs","configurations"],
 "all command sequences whose distances and dictionary references are legal for the window, x window sizes, options, chunkings of encoder output and decoder input/output, serial and parallel decoders",
 "commands the brotli front end would not emit are only covered by a handful of checked-in IR files",
 ["src/codec/mod.rs","src/codec/copy.rs","src/codec/dict.rs","src/codec/literal.rs","src/codec/context_map.rs","src/codec/block_type.rs","src/codec/interface.rs","src/codec/specializations.rs","src/codec/weights.rs","src/cmd_to_divans/mod.rs","src/divans_to_raw/mod.rs"],
 [("command-type, length, distance nibble codes","src/codec/copy.rs"),("dictionary word coding","src/codec/dict.rs"),("context map move-to-front coding","src/codec/context_map.rs")],
 [], ["Compressor::encode_commands","Decompressor::decode"])

prop("P13", "Replaying commands produces the LZ77 bytes for any window and buffer size",
 "For every legal command sequence, window size and sequence of output-buffer sizes, replaying the commands produces exactly the bytes of a direct interpretation over the unbounded history: literals verbatim, copies from the stated distance with overlap semantics, dictionary words with their transform. Results do not depend on where output buffers end relative to commands or to the ring buffer wrap.",
 ["inputs","programs","histories"],
 "all command sequences x ring sizes x output chunk sizes (incl. 0 and 1)",
 "cmd_to_raw tests have six fixed scenarios",
 ["src/cmd_to_raw/mod.rs","src/interface.rs"],
 [("ring buffer copy/dict/literal expansion","src/cmd_to_raw/mod.rs")],
 [("output_buf_index / ring_buffer_decode_index / input_sub_offset","position inside the ring and the current command","src/cmd_to_raw/mod.rs")],
 ["DivansRecodeState::encode_cmd/flush"])

prop("P14", "The command-line tool is lossless in every mode",
 "For every file and every flag combination the tool accepts, compressing with the command-line tool and decompressing with it (explicitly or auto-detected, serial or parallel, any buffer size, files or pipes) gives back exactly the file; streams made by the library are decompressed as well, and the library decodes the tool's. The tool exits with a nonzero status, not success, on corrupt or truncated input and when its input cannot be read or its output cannot be written. Every text of commands it accepts stands for fixed bytes: replaying the text (--recode) gives those bytes, and compressing it (-i) then decompressing gives the same. Without -c, an input is unpacked exactly when it begins with the stream magic and is compressed otherwise.",
 ["inputs","configurations","programs"],
 "all files x flag combinations (-c/-d/-i/--recode, quality, window, mixing, stride, context-map, prior, speeds, optimizer, serial, buffer size, benchmark, files/pipes) x command texts x damage",
 "the binary's own tests cover fixed IR files and a few flag sets",
 ["src/bin/divans.rs","src/bin/util.rs"],
 [("argument parsing, mode selection","src/bin/divans.rs"),("command text parser","src/bin/divans.rs, src/bin/util.rs")],
 [], ["exit status and output of the divans executable"])

prop("P15", "Reader and writer adaptors never lose data under I/O faults",
 "For every underlying reader or writer that performs short operations, returns interruptions or would-block style errors, or fails permanently at any point, the adaptors deliver every byte exactly once and in order once the fault is retried, propagate each underlying error to the caller rather than swallowing it, and never report clean end of file or success when data is missing. Flushing a compressing writer completes its stream exactly once.",
 ["fault_sequences","histories","inputs"],
 "all sequences of read/write/flush calls with arbitrary sizes over I/O objects with scripted short counts, Interrupted, WouldBlock and hard errors",
 "tests use only well-behaved in-memory buffers",
 ["src/reader.rs","src/writer.rs"],
 [("input/output buffering between codec and I/O","src/reader.rs, src/writer.rs")],
 [("input_offset/input_len/input_eof","unconsumed part of the buffer","src/reader.rs"),("total_out","buffered output","src/writer.rs")],
 ["std::io::Read / Write impls of Divans*Compressor*/Decompressor*"])

prop("P16", "The checksum is CRC-32C for every input and every split",
 "For every byte string and every way of splitting it into successive updates, the stream checksum equals CRC-32C (Castagnoli, reflected, initial and final inversion) of the concatenation. The trailer of every produced stream carries that checksum, little-endian, of all bytes before it, followed by the fixed tag.",
 ["inputs","histories"],
 "all byte strings and splits, all table-driven path lengths and alignments; trailers of streams of every encoder",
 "one unit test checks a single constant",
 ["src/codec/crc32.rs","src/codec/crc32_table.rs","src/divans_compressor.rs","src/brotli_ir_gen.rs","src/codec/mod.rs"],
 [("slice-by-N table CRC","src/codec/crc32.rs")],
 [("crc","running value","src/codec/decoder.rs")],
 ["crc32c_init/crc32c_update","last eight bytes of every stream"],
 "re-export of the private crc function")

prop("P17", "Reciprocal-multiplication division equals exact integer division",
 "For every divisor and dividend in the ranges the probability models use, division by table-driven reciprocal multiplication returns exactly the integer quotient, in each build variant. Precomputed and computed reciprocals are identical.",
 ["inputs","configurations"],
 "all 16-bit divisors x dividends up to 2^30 (boundary multiples exhaustively, others sampled), all 8-bit divisors x all 16-bit dividends",
 "tests sample a few hundred pairs",
 ["src/probability/numeric.rs","src/probability/div_lut.rs","src/probability/opt_frequentist_cdf.rs"],
 [("reciprocal tables","src/probability/div_lut.rs"),("multiply-shift","src/probability/numeric.rs")],
 [], ["fast_divide_30bit_by_16bit, fast_divide_16bit_by_8bit"],
 "re-export of the private numeric functions")

prop("P18", "All memory comes from the caller's allocator and is returned exactly once",
 "When a caller supplies its own allocator, every buffer the codec uses through the C API is obtained from it, is freed through it exactly once by the time the handle is freed, and no buffer is used outside its bounds or after being freed. This holds whichever call the handle is freed after: before use, mid-stream, after success or after an error.",
 ["histories","crash_points","inputs"],
 "all call sequences up to the free, for compressors and decompressors, with a tracking allocator, valid and corrupt inputs",
 "the C example uses one allocation pattern to completion and never checks balance",
 ["src/ffi/alloc_util.rs","src/ffi/mod.rs","src/ffi/compressor.rs","src/ffi/decompressor.rs","src/alloc_util.rs","src/codec/mod.rs","src/divans_decompressor.rs","src/divans_compressor.rs","src/brotli_ir_gen.rs"],
 [("SubclassableAllocator with custom callbacks","src/ffi/alloc_util.rs"),("explicit free of every table and buffer","src/codec/interface.rs, src/codec/mod.rs")],
 [], ["alloc/free callbacks passed through CAllocator"])

prop("P19", "Build variants agree on the stream format",
 "The crate built with any supported performance or safety feature (division-free arithmetic, uncached models, no inlining, no unsafe code, billing and entropy reports) emits byte-identical streams to the default build for the same input and options, and each decodes the other's streams to the original bytes. The builds with the blending probability model have a format of their own: they too decode what they write, and agree on it among themselves with any of those features added.",
 ["configurations","inputs"],
 "all inputs and options x {default, avoid-divide, uncached_frequentist, no-inline, safe, billing with debug_entropy} as encoder x as decoder; x {blend, blend with avoid-divide, no-inline and safe} likewise",
 "tests are built once per feature set and never exchange streams between builds",
 ["src/probability/mod.rs","src/probability/numeric.rs","src/probability/opt_frequentist_cdf.rs","src/probability/frequentist_cdf.rs","src/probability/blend_cdf.rs","src/alloc_util.rs","src/codec/interface.rs","src/slice_util.rs","src/billing.rs"],
 [("cfg(feature) alternates of the same arithmetic","src/probability/numeric.rs, src/probability/mod.rs")],
 [], ["streams written by each build"])

prop("P20", "The header is canonical and validated; the decoder honours the stream's window",
 "Every produced stream begins with the fixed magic number and a window size between 10 and 24 that is the requested one clamped to that range; a decoder rejects any stream whose magic number or window size is invalid before producing a byte, however the header is split over calls. Disabling checksum verification accepts a stream whose only fault is its checksum, and changes nothing about valid streams.",
 ["inputs","configurations","histories"],
 "all requested window sizes (any integer) and compressors; all 16-byte header mutations; all splits of the header; checksum field values",
 "tests never present a bad header or out-of-range window",
 ["src/divans_compressor.rs","src/brotli_ir_gen.rs","src/divans_decompressor.rs","src/interface.rs","src/codec/decoder.rs"],
 [("make_header","src/divans_compressor.rs"),("HeaderParser","src/divans_decompressor.rs")],
 [("HeaderParser.header / read_offset","partially received header","src/divans_decompressor.rs")],
 ["first 16 bytes of streams","Decompressor::decode result"])

prop("P21", "The decoder stops exactly at the end of its stream",
 "For every valid stream followed by any trailing bytes, the streaming decoder consumes exactly the stream's bytes, reports success, leaves the trailing bytes unconsumed, and stays in the success state without producing further bytes when called again. The reader adaptor then reports end of file, or an error, instead of spinning.",
 ["inputs","histories"],
 "all valid streams x trailing data (incl. another stream) x chunkings x repeated calls after success, serial and parallel",
 "no test appends trailing data or calls a finished decoder",
 ["src/codec/decoder.rs","src/codec/mod.rs","src/divans_decompressor.rs","src/mux.rs","src/reader.rs"],
 [("EOF marker detection and checksum state machine","src/codec/decoder.rs, src/mux.rs")],
 [("deserialize state / checksum offset","how much of the trailer has been seen","src/codec/decoder.rs")],
 ["Decompressor::decode input offset and result","DivansDecompressorReader::read"])

prop("P22", "The stream format is fixed: each version reads the other's streams",
 "Every stream written by the pinned version of the crate, by any of its compressors with any options, is decoded by the current decoder to its original bytes, and every stream the current compressors write is decoded by the pinned version's decoder to its original bytes. The compressed bytes need not be the same in both; what a stream stands for must be.",
 ["inputs","configurations"],
 "all inputs, options and command sequences, written by either version and read by the other",
 "the tests encode and decode with the same build, so a change of model, table, constant or bit layout that both sides share is invisible to them, while it makes every stream in cold storage unreadable",
 ["src/codec","src/probability","src/constants.rs","src/interface.rs","src/ans.rs","src/mux.rs","src/priors.rs"],
 [("context and prior selection","src/codec/literal.rs, src/codec/copy.rs, src/codec/dict.rs, src/codec/priors.rs"),("model initial state and update rules","src/probability")],
 [("all adaptive models and last-distance / last-command caches","encoder and decoder state that must evolve identically in both versions","src/codec/interface.rs")],
 ["streams of the C and Rust interfaces","Decompressor::decode output"])

prop("P23", "Typed allocators given through the Rust interface get every cell back",
 "When a caller builds a compressor or decompressor through the Rust factories over its own typed allocators, every cell the object obtains from an allocator is given back to that same allocator, whole and once, by the time free() or free_ref() returns, and free() hands the caller's allocators themselves back, ready for another stream. This holds whichever call the object is released after: before use, mid-stream, after success or after an error, with or without worker threads; and the streams and bytes are those obtained with the default allocators.",
 ["histories","crash_points","inputs","schedules"],
 "all call sequences up to the release, both compressors and both decompressors, valid, cut and corrupt streams",
 "the tests use allocators that free on drop, so a cell that is dropped, kept or handed to the wrong allocator is invisible to them; with a fixed pool it is memory gone for good",
 ["src/codec/mod.rs","src/codec/interface.rs","src/codec/decoder.rs","src/divans_compressor.rs","src/divans_decompressor.rs","src/parallel_decompressor.rs","src/brotli_ir_gen.rs","src/alloc_util.rs","src/threading.rs","src/mux.rs","src/ans.rs"],
 [("explicit free of every table and buffer","src/codec/interface.rs, src/codec/mod.rs"),("recycled allocations and queued buffers","src/alloc_util.rs, src/threading.rs, src/multithreading.rs")],
 [("cells in flight between the worker and the main thread","decoder release before the stream's end","src/multithreading.rs, src/parallel_decompressor.rs")],
 ["Allocator::alloc_cell / free_cell of the caller's allocators","free() / free_ref() of the codecs"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
