#!/usr/bin/env python3
"""Writes properties.jsonl (one JSON object per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                     "observe_at": observe, "hook_needed": hook}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

prop("C01", "Archive contents survive a write/read round trip",
 "Whatever sequence of entries is pushed into an archive writer (single entries, solid batches, empty files, directories, in any interleaving, with the compression/encryption methods and options changed between pushes), finishing the archive and reading it back yields exactly those entries in block order, each with byte-identical content and the pushed length. Reading to the end of every entry succeeds, and nothing is added, lost, reordered or attached to the wrong name.",
 ["inputs","histories","configurations"], "every sequence of pushes, every content (including empty, incompressible, larger than the dictionary), every supported method chain and option set, every password",
 "The tests push a handful of fixed trees with default options; they never mix solid and single pushes, change methods between pushes, or use contents larger than the dictionary.",
 ["src/writer.rs","src/writer/pack_info.rs","src/writer/unpack_info.rs","src/writer/seq_reader.rs","src/reader.rs","src/encoders.rs","src/decoders.rs","src/folder.rs"],
 [("one pack stream and one folder recorded per push","src/writer.rs push_archive_entry / push_archive_entries"),("sub-stream sizes and checksums per entry of a solid block","src/writer/unpack_info.rs write_substreams"),("mapping from entries to blocks when reading","src/reader.rs calculate_stream_map")],
 ["SevenZWriter::{push_archive_entry,push_archive_entries,finish}","SevenZReader::for_each_entries"],
 [("files","entries in push order","src/writer.rs"),("pack_info/unpack_info","sizes, checksums and coder chains of the blocks written so far","src/writer.rs")])

prop("C02", "Entry metadata survives a write/read round trip",
 "For every pushed entry, its name (any Unicode without NUL), kind (file, empty file, directory), anti-item flag when it has no content, creation/access/modification times, attributes, and which of these are absent, read back unchanged, for every mixture of entries with and without each of them. The reported size and checksum of each entry equal those of its actual content, and the record returned by a push agrees with what is read back.",
 ["inputs","histories"], "every list of entries and every subset of defined/undefined attributes, for any number of entries",
 "The tests compare extracted file contents and a few names; they never check times, attributes, anti flags or bit vectors that span several bytes.",
 ["src/writer.rs","src/reader.rs","src/archive.rs"],
 [("bit vectors for empty streams, empty files, anti items and optional attributes","src/writer.rs write_file_* and write_bit_set; src/reader.rs read_files_info, read_bits"),("UTF-16 name table","src/writer.rs write_file_names; src/reader.rs NamesReader")],
 ["SevenZArchiveEntry fields before pushing","SevenZReader::archive().files"])

prop("C03", "LZMA2 encoding and decoding are inverse for all options",
 "For every valid LZMA2 option set (every preset, dictionary size, lc/lp/pb, encoding mode, match finder, nice length and depth limit, with or without a preset dictionary), every input, and every way of splitting it into writes and flushes, decoding the encoder's output with the same dictionary size and preset dictionary returns the input exactly and then reports end of stream. The encoder never panics or fails on such input.",
 ["inputs","configurations","histories"], "all inputs, option sets, write/flush histories, including inputs far larger than the dictionary and incompressible regions",
 "Existing tests encode a few small inputs with defaults; window sliding, small dictionaries with incompressible data, chunk-limit boundaries and non-default lc/lp/pb are not reached.",
 ["lzma-rust/src/enc/lzma2_writer.rs","lzma-rust/src/enc/encoder.rs","lzma-rust/src/enc/encoder_fast.rs","lzma-rust/src/enc/encoder_normal.rs","lzma-rust/src/enc/range_enc.rs","lzma-rust/src/lz","lzma-rust/src/lzma2_reader.rs","lzma-rust/src/decoder.rs","lzma-rust/src/range_dec.rs"],
 [("chunking into LZMA and uncompressed chunks with state/props/dictionary resets","lzma-rust/src/enc/lzma2_writer.rs write_chunk"),("sliding window with enough history for uncompressed chunks","lzma-rust/src/lz/lz_encoder.rs"),("chunk parser","lzma-rust/src/lzma2_reader.rs decode_chunk_header")],
 ["LZMA2Writer (Write)","LZMA2Reader (Read)"])

prop("C04", "LZMA encoding and decoding are inverse for all options",
 "For every valid LZMA option set, header form (.lzma header with known or unknown size, or raw with or without end marker, or raw with preset dictionary), input and write chunking, decoding the encoder's output returns the input exactly and then reports end of stream. A declared size that does not match what was written is reported as an error by the encoder, and a declared size of any magnitude (also beyond 4 GiB) is honoured by the decoder without hanging.",
 ["inputs","configurations","histories"], "all inputs, option sets, header forms, write chunkings and declared sizes",
 "No existing test drives LZMA encoding directly except through small headers; end markers, known sizes, preset dictionaries and large declared sizes are untested.",
 ["lzma-rust/src/enc/lzma_writer.rs","lzma-rust/src/lzma_reader.rs","lzma-rust/src/enc/encoder.rs","lzma-rust/src/decoder.rs","lzma-rust/src/lz"],
 [("known size versus end marker termination","lzma-rust/src/lzma_reader.rs read_decode; lzma-rust/src/enc/lzma_writer.rs finish"),("size bookkeeping","lzma-rust/src/lzma_reader.rs remaining_size")],
 ["LZMAWriter (Write)","LZMAReader (Read)"])

prop("C05", "Compressed output is standard LZMA/LZMA2",
 "Everything the LZMA and LZMA2 encoders emit, for every input, option set and write history, is a stream that an independent standard decoder, given the declared properties and dictionary size, decodes to the original input. In an archive the recorded coder properties are sufficient for that: the recorded dictionary size is never smaller than the one the stream needs.",
 ["inputs","configurations"], "all inputs, option sets (including dictionary sizes that are not powers of two) and write histories",
 "The tests only decode with this library's own decoder, so an encoder and decoder that agree on a wrong format pass.",
 ["lzma-rust/src/enc","lzma-rust/src/lz","src/encoders.rs"],
 [("range coder, probability model and match coding","lzma-rust/src/enc/encoder.rs, range_enc.rs"),("coder properties","src/encoders.rs get_options_as_properties")],
 ["bytes written by LZMAWriter/LZMA2Writer and by the archive writer"])

prop("C06", "Standard LZMA/LZMA2 streams from other encoders decode exactly",
 "Every valid LZMA or LZMA2 stream made by another conforming encoder (any lc/lp/pb, dictionary size, match finder, any legal sequence of LZMA2 chunk kinds and sizes up to the format's maxima, resets and flushes) decodes here to exactly the data that encoder was given. The decoder consumes no input past the end of the stream.",
 ["inputs","configurations","programs"], "all valid streams: arbitrary token sequences and chunk layouts, not just those this library's encoder would choose",
 "The sample archives contain a handful of streams from one encoder; maximum-size uncompressed chunks, mid-stream property changes, dictionary resets and rarely used token kinds do not occur.",
 ["lzma-rust/src/lzma2_reader.rs","lzma-rust/src/lzma_reader.rs","lzma-rust/src/decoder.rs","lzma-rust/src/lz/lz_decoder.rs","lzma-rust/src/range_dec.rs","lzma-rust/src/state.rs"],
 [("chunk header parsing and reset rules","lzma-rust/src/lzma2_reader.rs decode_chunk_header"),("literal/match/rep decoding","lzma-rust/src/decoder.rs"),("circular dictionary and pending matches","lzma-rust/src/lz/lz_decoder.rs")],
 ["LZMAReader/LZMA2Reader output"])

prop("C07", "Branch and delta filters exactly undo the standard encoders",
 "For every input, and every read chunking, decoding through the X86, ARM, ARM-Thumb, PowerPC and SPARC branch filters and the delta filter (every distance 1..256) restores exactly what the corresponding standard filter encoder was given, with the same length, and never fails or panics.",
 ["inputs","configurations"], "all byte strings (including ones dense in branch opcodes and ones straddling buffer boundaries), all delta distances, all read sizes",
 "One x86 sample and one delta sample are decoded by tests; ARM, ARM-Thumb, PowerPC and SPARC are never exercised, nor are boundary-straddling instructions.",
 ["src/bcj/mod.rs","src/bcj/x86.rs","src/bcj/arm.rs","src/bcj/ppc.rs","src/bcj/sparc.rs","src/delta.rs","src/decoders.rs"],
 [("carry-over of unfiltered tail between refills","src/bcj/mod.rs SimpleReader::read"),("address conversion","src/bcj/*.rs"),("delta history","src/delta.rs")],
 ["entry content read from an archive whose coder chain uses the filter"])

prop("C08", "BCJ2 blocks decode to the original data",
 "For every input, splitting it with the standard BCJ2 transform into main, call, jump and range-coded streams, each optionally compressed with LZMA or LZMA2 or stored, and reading the block through this library returns the original bytes, whatever the stream sizes and read sizes. Missing or truncated side streams produce an error rather than wrong data or a panic.",
 ["inputs","configurations"], "all byte strings, all probability/branch patterns, all placements of the four streams and coder orders",
 "One BCJ2 sample archive is decoded by the tests.",
 ["src/bcj2/mod.rs","src/bcj2/bcj2_decode.rs","src/reader.rs","src/folder.rs"],
 [("BCJ2 range decoder state machine with resumable input and output","src/bcj2/bcj2_decode.rs"),("multi-input coder graph wiring","src/reader.rs build_decode_stack2, get_in_stream")],
 ["SevenZReader::for_each_entries on BCJ2 archives"])

prop("C09", "AES-256 encryption is format-compatible both ways",
 "For every content, password, salt, IV and cycle exponent, what this library encrypts is what the 7z AES-256/SHA-256 scheme prescribes (key derivation, CBC chaining, zero padding), so an independent implementation decrypts it; and every stream an independent implementation encrypts with any legal salt/IV length decrypts here. The result does not depend on how the data is split into writes or reads, and after a seek that reports success the decoder continues at the reported position.",
 ["inputs","configurations","histories"], "all contents, lengths modulo the block size, passwords (any Unicode), salt and IV lengths, cycle exponents, chunkings",
 "The tests decrypt what the same code encrypted, with one password and one file size; the scheme itself and chunk boundaries are unchecked.",
 ["src/aes256sha256.rs","src/password.rs","src/encoders.rs","src/decoders.rs"],
 [("key derivation","src/aes256sha256.rs get_aes_key"),("block buffering across writes/reads","src/aes256sha256.rs Cipher::update, Aes256Sha256Encoder::write"),("coder properties","src/aes256sha256.rs write_properties")],
 ["Aes256Sha256Encoder/Decoder","archives with an AES coder"])

prop("C10", "Encrypted archives reveal nothing without the password",
 "Reading an encrypted entry (or an encrypted header) with a wrong or missing password never returns success with any content, and never panics. With header encryption enabled and an AES method in use, the archive bytes contain no entry name, and no run of the content, in clear, for any set of entries.",
 ["inputs","configurations","histories"], "all contents (including empty, tiny and very repetitive), all right/wrong password pairs, all entry sets including single short-named entries",
 "One test decrypts with the right password; no test uses a wrong one or inspects the bytes of an encrypted archive.",
 ["src/aes256sha256.rs","src/writer.rs","src/reader.rs","src/error.rs"],
 [("header encryption","src/writer.rs write_encoded_header"),("checksum verification after decryption","src/reader.rs Crc32VerifyingReader"),("password required error","src/decoders.rs")],
 ["SevenZReader::new / for_each_entries result","raw archive bytes"])

prop("C11", "Corruption is never silently accepted",
 "If any bytes of an archive are flipped, overwritten, or cut off, then opening it and reading every entry to its end either reports an error or yields exactly the original entries with the original contents. An entry is never returned short, long or altered as if it were complete.",
 ["inputs","fault_sequences"], "every archive and every single- or multi-byte corruption or truncation at every offset, for every coder chain",
 "No test corrupts an archive that it then reads in full.",
 ["src/reader.rs","lzma-rust/src/lzma2_reader.rs","lzma-rust/src/lzma_reader.rs","src/decoders.rs"],
 [("start-header, header and content checksums","src/reader.rs read_start_header, init_archive, Crc32VerifyingReader"),("length bounding per entry","src/reader.rs BoundedReader")],
 ["results of SevenZReader::new and of reading each entry to the end"])

prop("C12", "Malformed archives cannot crash, hang or exhaust memory",
 "For every byte string presented as an archive (random, mutated from a valid archive with checksums repaired, or structurally malformed in any header field), opening it and reading its entries terminates with success or an error. It never panics, never loops without consuming input, and never allocates memory out of proportion to the input and the dictionary sizes it declares.",
 ["inputs"], "all byte strings, in particular all header field values with valid checksums",
 "Tests open a few well-formed samples only; malformed counts, indices, coder graphs, sizes and properties are not reached.",
 ["src/reader.rs","src/folder.rs","src/decoders.rs","src/archive.rs","src/bcj2","src/aes256sha256.rs"],
 [("header parsing with counts and indices from the file","src/reader.rs read_*"),("coder graph traversal","src/folder.rs OrderedCoderIter; src/reader.rs build_decode_stack*"),("coder property parsing","src/decoders.rs")],
 ["process survival, time and peak memory of SevenZReader::new, Archive::read and for_each_entries"])

prop("C13", "Malformed codec streams cannot crash, hang or break limits",
 "For every byte string fed to the LZMA, LZMA2 and AES decoders with any parameters they accept, decoding ends with an error or end of stream after producing no more than the declared size, without panicking and without spinning, and the bytes it does return are those the format defines for the stream. A decoder created with a memory limit refuses streams that need more and otherwise stays within it.",
 ["inputs","configurations"], "all byte strings and all decoder parameters, all read sizes, all memory limits",
 "Decoders are only given valid streams by the tests.",
 ["lzma-rust/src/decoder.rs","lzma-rust/src/range_dec.rs","lzma-rust/src/lzma2_reader.rs","lzma-rust/src/lzma_reader.rs","lzma-rust/src/lz/lz_decoder.rs","src/aes256sha256.rs"],
 [("distance checks","lzma-rust/src/lz/lz_decoder.rs repeat"),("range decoder buffer bounds","lzma-rust/src/range_dec.rs"),("memory limit","lzma-rust/src/lzma_reader.rs new_mem_limit")],
 ["LZMAReader, LZMA2Reader, Aes256Sha256Decoder results","allocated memory"])

prop("C14", "Archives written conform to the 7z format",
 "Every finished archive, for every history of pushes and options, parses under an independent implementation of the published 7z format: signature, start header and header checksums are right, every property has its declared length, counts and bit vectors agree, pack streams tile the data area with correct sizes and checksums, and folder and sub-stream sizes and checksums match the contents.",
 ["histories","configurations","inputs"], "all push histories, numbers of entries, metadata mixtures, method chains and options",
 "Tests read archives back only through this library's own lenient reader, which ignores many fields (pack checksums, property lengths, padding).",
 ["src/writer.rs","src/writer/pack_info.rs","src/writer/unpack_info.rs","src/encoders.rs","src/aes256sha256.rs"],
 [("header serialisation","src/writer.rs write_header, write_files_info, write_u64, write_bit_set"),("pack and folder records","src/writer/pack_info.rs, src/writer/unpack_info.rs"),("header compression","src/writer.rs write_encoded_header")],
 ["bytes of the finished archive"])

prop("C15", "Any valid 7z archive of supported features reads correctly",
 "Every archive another conforming writer can produce with the supported coders (stored, LZMA, LZMA2, BZIP2, ZSTD, AES, branch and delta filters, BCJ2, in any valid chain), any block layout (blocks with zero, one or many entries, empty entries interleaved anywhere), any combination of optional header records and encodings (packed or plain headers, padding and unknown properties, undefined times/attributes/checksums, non-minimal numbers), reads back with exactly the entries, metadata and contents that writer stored.",
 ["inputs","programs","configurations"], "all valid archives: all header encodings, entry layouts and coder chains",
 "The sample archives cover a few fixed layouts made by two writers.",
 ["src/reader.rs","src/folder.rs","src/decoders.rs","src/archive.rs"],
 [("header parsing","src/reader.rs read_header .. read_files_info"),("stream map","src/reader.rs calculate_stream_map"),("coder chain construction","src/reader.rs build_decode_stack; src/decoders.rs add_decoder")],
 ["Archive::read / SevenZReader::for_each_entries"])

prop("C16", "Decoded data does not depend on read sizes or short reads",
 "For every archive and every codec, the bytes obtained are the same whatever buffer sizes the consumer reads with (including one byte at a time and empty buffers) and however many bytes per call the underlying source delivers. At the end, further reads keep returning end of file.",
 ["schedules","inputs","configurations"], "all consumer read-size sequences and all source short-read sequences, for every coder chain",
 "Tests read with fixed buffers from files or slices that never return short.",
 ["src/reader.rs","src/bcj/mod.rs","src/bcj2/mod.rs","src/aes256sha256.rs","src/delta.rs","lzma-rust/src/lzma2_reader.rs","lzma-rust/src/lzma_reader.rs"],
 [("partial-read state in each decoder","each Read implementation"),("bounded/seekable sub-readers","src/reader.rs BoundedReader, SeekableBoundedReader")],
 ["Read results on entries and on the codec readers"])

prop("C17", "Encoding depends only on the content, options and order",
 "The bytes of an archive or codec stream are a function of the pushed contents, metadata and options alone: they do not depend on how content readers split their data or on how the output sink splits its writes (short writes), and repeating the same history gives identical bytes.",
 ["schedules","histories","inputs"], "all splits of the input into reads/writes and all short-write behaviours of the sink",
 "Tests use file readers and sinks that always transfer everything.",
 ["src/writer.rs","src/writer/seq_reader.rs","lzma-rust/src/enc/lzma2_writer.rs","lzma-rust/src/enc/lzma_writer.rs","lzma-rust/src/enc/range_enc.rs","src/aes256sha256.rs"],
 [("write_all to the sink everywhere","lzma-rust/src/enc/*, src/aes256sha256.rs"),("reader concatenation for solid blocks","src/writer/seq_reader.rs")],
 ["bytes written to the sink"])

prop("C18", "Blocks decode independently, in any order and concurrently",
 "Decoding the blocks of an archive one by one through separate block decoders, in any order, repeatedly, from one shared parsed archive and from different threads with their own sources, yields for every entry exactly what sequential reading of the whole archive yields. Together with the content-less entries the blocks cover every entry exactly once.",
 ["schedules","histories","inputs"], "all archives, block orders, subsets, repetitions and thread interleavings",
 "One test decodes blocks in order on fixed samples; order, repetition and concurrency are not varied.",
 ["src/reader.rs"],
 [("per-block positioning","src/reader.rs BlockDecoder, build_decode_stack"),("entry ranges per block","src/reader.rs calculate_stream_map, BlockDecoder::entries")],
 ["BlockDecoder::{entries,entry_count,for_each_entries}"])

prop("C19", "Entry iteration visits each entry once and obeys the callback",
 "Iterating over an archive calls the callback exactly once per entry, with that entry's own record and content. When the callback answers 'stop' no further entry is visited and iteration succeeds; when it returns an error, iteration stops there and returns that error.",
 ["histories","inputs"], "all archives and every position at which the callback stops or fails",
 "Tests always iterate to the end (or stop within the last block).",
 ["src/reader.rs","src/de_funcs.rs"],
 [("callback result propagation across blocks","src/reader.rs for_each_entries"),("empty entries after blocks","src/reader.rs for_each_entries")],
 ["callback invocations and result of for_each_entries / decompress_with_extract_fn"])

prop("C20", "Compressing and extracting a file tree reproduces the tree",
 "For every directory tree of regular files, compressing it with any of the helper functions (plain or encrypted, solid or per-file) and extracting the result recreates the same relative paths with identical contents and modification times, and with the whole-tree helper also the same (possibly empty) directories. A filter given to a push helper excludes exactly the paths it rejects.",
 ["inputs","configurations"], "all trees (depth, names with Unicode and spaces, empty files and directories, sizes), all helpers, all filters",
 "Tests use four tiny fixed trees and never compare modification times, encrypted trees, filters, or unusual names.",
 ["src/en_funcs.rs","src/de_funcs.rs","src/archive.rs"],
 [("recursive collection and entry naming","src/en_funcs.rs compress_path, collect_file_paths"),("extraction and time stamps","src/de_funcs.rs default_entry_extract_fn")],
 ["file system before compression and after extraction"])

prop("C21", "Extraction never writes outside the destination directory",
 "For every archive, whatever its entry names contain (parent references, absolute paths, doubled or trailing separators), extracting it with the default helpers creates, truncates and modifies nothing outside the destination directory; entries that would escape are refused with an error. Ordinary relative names still extract.",
 ["inputs"], "all entry names and all orders of entries",
 "No test extracts an archive with a hostile name.",
 ["src/de_funcs.rs"],
 [("destination path computation","src/de_funcs.rs decompress_impl")],
 ["file system outside and inside the destination"])

prop("C22", "I/O failures surface as errors, never as wrong results",
 "If the source fails (an error or premature end at any call) while an archive is opened or read, or the content reader or the output sink fails (error, zero-length or partial write at any call) while one is written, the operation returns an error, or the result is exactly that of a fault-free run. A finish that reports success has produced a complete, readable archive. The same holds for the helpers that compress and extract file trees when the file system fails them (an unreadable source, a full or unwritable destination, something else in the place of a file or directory, a damaged archive file).",
 ["fault_sequences","inputs"], "every I/O call as the failing one, every failure kind, for reading and writing",
 "No test injects an I/O fault.",
 ["src/writer.rs","src/reader.rs","lzma-rust/src/enc","lzma-rust/src/lzma2_reader.rs","lzma-rust/src/lzma_reader.rs","src/aes256sha256.rs","src/bcj/mod.rs","src/bcj2/mod.rs","src/en_funcs.rs","src/de_funcs.rs"],
 [("error propagation in every Read/Write adaptor","all adaptors"),("finish ordering","src/writer.rs finish")],
 ["results of writer/reader calls and the bytes that reached the sink"])

prop("C23", "A failed push leaves the writer usable and consistent",
 "If a push fails because its content reader failed (or a method was rejected), later pushes and finish still produce a valid archive that contains exactly the entries whose pushes succeeded, with their contents intact. The failed entry does not appear.",
 ["histories","fault_sequences"], "all histories of successful and failing pushes, every failure point within a content reader, solid and single",
 "No test has a failing push.",
 ["src/writer.rs"],
 [("records updated only after the stream is complete","src/writer.rs push_archive_entry, push_archive_entries"),("output position of the next pack stream","src/writer.rs")],
 ["archive bytes after finish"])

prop("C24", "Archives with a lost start header are recovered",
 "If the start header of an archive (its checksum, offset, size and header checksum) was never written and is all zeros, opening the archive locates the end header by itself and yields the same entries, metadata and contents as the intact archive, for plain and for packed headers. If no end header can be found the result is an error.",
 ["inputs","crash_points"], "all archives whose end header lies within the last mebibyte, whatever byte values the header contains; arbitrary data without a header",
 "No test has a zeroed start header.",
 ["src/reader.rs"],
 [("backwards search for the end header","src/reader.rs try_to_locale_end_header")],
 ["SevenZReader::new on the damaged bytes"])

prop("C25", "Reported sizes and memory estimates are accurate",
 "The counts reported while writing are exact: each pushed entry's compressed size is the number of bytes its stream occupies in the output and its compressed checksum is that of those bytes, the concatenating and counting readers/writers report exactly the bytes and checksums that passed through them, and what the reader reports per block agrees. The decoder memory estimates bound what decoding allocates.",
 ["inputs","histories","configurations"], "all push histories, reader compositions (including empty readers anywhere) and decoder parameters",
 "Tests never look at the reported compressed sizes, counters or estimates.",
 ["src/writer.rs","src/writer/seq_reader.rs","lzma-rust/src/enc/counting.rs","lzma-rust/src/lzma_reader.rs","lzma-rust/src/lzma2_reader.rs","src/reader.rs"],
 [("counting adaptors","src/writer.rs CompressWrapWriter; lzma-rust/src/enc/counting.rs; src/writer/seq_reader.rs"),("memory formulas","lzma-rust/src/lzma_reader.rs get_memery_usage; lzma-rust/src/lzma2_reader.rs get_memery_usage")],
 ["entry records returned by pushes","SeqReader/SourceReader/CountingWriter counters","peak allocation versus the estimate"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    n = p["statement"].count(". ") + 1
    if n > 3: print("sentences", p["id"], n)
print(len(P))
