"""Texts of the properties (properties.jsonl) and of the manifest; `python3 driver/catalog.py` rewrites both files."""
import json, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CAT = []
NA = []


def C(id, title, statement, over, text, why, files, mech, observe, hook=None):
    assert len(title) <= 80, title
    CAT.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                            "observe_at": observe, "hook_needed": hook}})


def N(id, title, statement, over, text, why, files, mech, observe, reason):
    C(id, title, statement, over, text, why, files, mech, observe)
    NA.append({"property": id, "reason": reason})


HOOK = "--cfg vse_hooks: SevenZWriter::vse_add_folder / vse_add_file / vse_header put the facts to record into a writer without compressing anything"

C("H01", "Every 7z NUMBER is written canonically and read exactly",
  "Any 64-bit quantity recorded in an archive header (sizes, counts, offsets) is written as the shortest 7z NUMBER and read back as the same value; every NUMBER encoding the format allows, shortest or not, is read as the value the format gives it.",
  ["inputs"], "all 2^64 values and all encodings of 1 to 9 bytes",
  "The tests only ever record a handful of small sizes, so seven of the nine encoding lengths are never produced or parsed.",
  ["src/writer.rs", "src/reader.rs"],
  [("write_u64", "src/writer.rs"), ("read_u64", "src/reader.rs")],
  ["Archive::read(..).pack_pos / pack_sizes / folders[].unpack_sizes", "header bytes of SevenZWriter"], HOOK)
C("H02", "Entry metadata survives writing and reading",
  "Whatever mix of files, directories, empty files and anti-items is added to a writer, with any combination of times and attributes present or absent, reading the header it writes gives the same entries in the same order with the same kind, presence flags, times, attributes, size and checksum.",
  ["inputs", "histories"], "all kinds, presence patterns and 64-bit/32-bit values of the entries within the bounds; bit vectors crossing byte boundaries",
  "The tests compress one to three real files and look at names and contents; presence patterns, anti-items and vectors longer than a byte are never exercised.",
  ["src/writer.rs", "src/reader.rs", "src/archive.rs"],
  [("write_files_info and the per-fact writers", "src/writer.rs"), ("read_files_info, read_all_or_bits, read_bits", "src/reader.rs")],
  ["Archive::read(..).files"], HOOK)
C("H03", "Entry names survive writing and reading",
  "Any entry name made of Unicode scalar values other than NUL, inside or outside the Basic Multilingual Plane, is read back unchanged, and the names of several entries never run into each other.",
  ["inputs"], "all Unicode scalar values at every position of the names within the bounds",
  "The tests use ASCII names and one fixed file; surrogate pairs and code-unit boundaries are inputs.",
  ["src/writer.rs", "src/reader.rs"],
  [("write_file_names", "src/writer.rs"), ("kNames parsing", "src/reader.rs read_files_info")],
  ["Archive::read(..).files[].name"], HOOK)
C("H04", "File records are read as the 7z format lays them out",
  "A well-formed file section written by any conforming archiver is read as the format defines it: names, empty-stream, empty-file and anti bits, each time and the attributes with all-or-bits presence vectors, and which entry belongs to which folder; entries without a stream have no size, checksum or folder.",
  ["inputs"], "all kinds, presence patterns and values of the entries within the bounds, as encoded by an independent reference writer",
  "Fixture archives fix one combination each; the crate's own writer never produces several of the encodings a reader must take.",
  ["src/reader.rs", "src/archive.rs"],
  [("read_files_info", "src/reader.rs"), ("calculate_stream_map", "src/reader.rs")],
  ["Archive::read(..).files", "Archive::read(..).stream_map"])
C("H05", "The recorded stream layout survives writing and reading",
  "Whatever sequence of single entries and solid blocks the writer recorded, with any packed sizes, unpacked sizes and checksums including zero, reading its header assigns each entry its own size and checksum, each folder its coders, size and checksum, and each packed stream its size, checksum and offset.",
  ["inputs", "histories"], "all sizes and 32-bit checksums within the bounds, every mix of up to three folders",
  "A checksum of zero, multi-byte sizes and mixtures of solid and plain folders do not occur in the tests.",
  ["src/writer.rs", "src/writer/pack_info.rs", "src/writer/unpack_info.rs", "src/reader.rs"],
  [("PackInfo::write_to", "src/writer/pack_info.rs"), ("UnpackInfo::write_to / write_substreams", "src/writer/unpack_info.rs"),
   ("read_pack_info, read_unpack_info, read_sub_streams_info", "src/reader.rs")],
  ["Archive::read(..)"], HOOK)
C("H06", "Stream sections are read as the 7z format lays them out",
  "A well-formed stream description written by any conforming archiver, with any subset of the packed-stream, folder and sub-stream checksums defined and any number of sub-streams per folder including none, is read with every size, checksum, presence flag and entry-to-folder assignment the format defines.",
  ["inputs"], "all sizes, checksums and definedness patterns within the bounds, as encoded by an independent reference writer",
  "Each fixture archive fixes one layout; the optional digests and zero-stream folders are combinations no test holds.",
  ["src/reader.rs"],
  [("read_pack_info", "src/reader.rs"), ("read_unpack_info", "src/reader.rs"), ("read_sub_streams_info", "src/reader.rs"), ("calculate_stream_map", "src/reader.rs")],
  ["Archive::read(..)"])
for i, (n, t) in enumerate([("x86", "src/bcj/x86.rs"), ("ARM and ARM-Thumb", "src/bcj/arm.rs"), ("PowerPC and SPARC", "src/bcj/ppc.rs")]):
    C("F%02d" % (i + 1), "The %s branch filter%s decode%s as 7-Zip's" % (n, "" if i == 0 else "s", "s" if i == 0 else ""),
      "Extracting an entry stored with the %s branch filter gives exactly the bytes the 7-Zip filter defines, whatever the data, whatever sizes the caller reads with and however the source delivers its bytes, including around the filter's internal buffer boundary and at the unconverted tail." % n,
      ["inputs", "schedules"], "all data within the bounds, for several read sizes and source delivery sizes, and around the 4 KiB internal buffer boundary",
      "The tests extract one fixed executable; opcode look-alikes, state carried across calls and buffer edges depend on the data and on the read pattern.",
      ["src/bcj/mod.rs", t], [("SimpleReader and the converters", "src/bcj")], ["content delivered by SevenZReader"])
C("F04", "The Delta filter decodes as defined for every distance",
  "Extracting an entry stored with the Delta filter gives, for every distance from 1 to 256 and for missing properties, each byte plus the byte that many positions earlier, whatever the data and the read sizes.",
  ["inputs", "schedules"], "all data within the bounds, distances at both ends of the range, several read sizes",
  "One fixture with one distance; the 256-byte history ring is only exercised by long distances.",
  ["src/delta.rs", "src/decoders.rs"], [("DeltaReader", "src/delta.rs"), ("property parsing", "src/decoders.rs")], ["content delivered by SevenZReader"])

C("E01", "Reading an archive visits every entry once, with its own content",
  "for_each_entries on a reader, and on each block decoder in any order, calls the closure exactly once per entry with exactly that entry's content, for any arrangement of solid blocks, empty files, directories and empty blocks; it stops when the closure asks for it, passes the closure's error on unchanged, and can be run again afterwards.",
  ["inputs", "histories"], "every arrangement of entries within the bounds, every stopping point, both block orders, several read and delivery sizes",
  "Fixtures hold a few fixed arrangements, none of which mixes entries without a stream into solid blocks or stops in the middle.",
  ["src/reader.rs"], [("SevenZReader::for_each_entries", "src/reader.rs"), ("BlockDecoder", "src/reader.rs"), ("calculate_stream_map", "src/reader.rs")],
  ["SevenZReader::for_each_entries", "BlockDecoder::for_each_entries", "SevenZReader::read_entries"])
C("E02", "Content is delivered as complete only if size and checksums match",
  "An entry whose content ends early, or whose recorded checksum or folder checksum does not match its data, is reported as an error; an entry read to its end without an error has exactly the recorded size and checksum. Correct data is never refused, whatever sizes the caller reads with.",
  ["inputs", "fault_sequences", "schedules"], "all contents and recorded checksums within the bounds, any number of missing bytes, several read and delivery sizes",
  "One test flips one byte of one archive; truncation, folder checksums and read patterns around the end of an entry are not tested.",
  ["src/reader.rs"], [("Crc32VerifyingReader", "src/reader.rs"), ("BoundedReader", "src/reader.rs"), ("BlockDecoder::for_each_entries", "src/reader.rs")],
  ["content or error delivered by SevenZReader::for_each_entries"])
C("E04", "Coders are chained as the folder's bind pairs say",
  "Content stored through several coders is decoded from the packed stream outwards, each coder fed by the one its bind pair names, whatever order the folder lists the coders in and whatever sizes are read.",
  ["inputs", "schedules"], "several chains and listing orders, all values of the symbolic data bytes, several read and delivery sizes",
  "Fixture archives hold the one listing order their archiver wrote.",
  ["src/reader.rs", "src/folder.rs", "src/archive.rs", "src/decoders.rs"],
  [("build_decode_stack, ordered_coder_iter, find_bind_pair_*", "src/folder.rs, src/reader.rs"), ("add_decoder", "src/decoders.rs")],
  ["content delivered by SevenZReader"])
C("H07", "No archive, however corrupt, makes opening or reading it panic or hang",
  "Opening an archive with arbitrary bytes anywhere in its header, cut short anywhere, or followed by garbage returns an archive or an error: no panic, no arithmetic overflow, no endless loop, no memory or entry count out of proportion to the file; reading whatever was opened ends as well.",
  ["inputs", "fault_sequences"], "all values of the corrupted bytes at every place of the eight archives; every cut",
  "Corruption tests are absent; every count, size, index and offset of a header is attacker-controlled.",
  ["src/reader.rs", "src/folder.rs", "src/archive.rs", "src/decoders.rs"],
  [("read_header and everything below it", "src/reader.rs"), ("build_decode_stack", "src/reader.rs"), ("add_decoder property parsing", "src/decoders.rs")],
  ["Archive::read", "SevenZReader::new / for_each_entries", "BlockDecoder"])
C("H08", "Signature, version and header checksums decide what is opened",
  "A file is opened only if it has the 7z signature, a supported major version, and matching checksums of its start header and of its header; each mismatch is reported as the error made for it; an intact archive, with entries or without, is opened.",
  ["inputs", "fault_sequences"], "all signatures, versions, checksums; any changed byte of the start header and header of eight archives; arbitrary 32-byte starts",
  "The tests open valid archives only.",
  ["src/reader.rs"], [("Archive::read / read_signature and start header", "src/reader.rs"), ("init_archive", "src/reader.rs")],
  ["Archive::read"])
C("H09", "An archive whose start header was never written is recovered from its end",
  "When the start header is all zeros, as an interrupted writer leaves it, the header at the end of the file is found whatever the packed data is and whatever look-alike bytes the header contains, and the entries are read as from the intact archive; a file without one is refused.",
  ["inputs", "fault_sequences", "crash_points"], "seven archives, arbitrary packed data, arbitrary look-alike bytes inside the header, arbitrary short files",
  "No test opens such a file.",
  ["src/reader.rs"], [("try_to_locale_end_header", "src/reader.rs")], ["Archive::read", "SevenZReader::for_each_entries"])
C("H10", "A header stored as a packed stream is decoded, verified and used",
  "A header behind any chain of coders at any position gives exactly the archive it decodes to; a recorded checksum that does not match, or packed data that ends early, is an error, never a partial archive.",
  ["inputs", "fault_sequences"], "all recorded checksums, times and attributes; several coder chains, positions and delivery sizes; missing bytes",
  "Fixtures have intact encoded headers; the mismatch and truncation paths are never taken.",
  ["src/reader.rs"], [("read_encoded_header", "src/reader.rs")], ["Archive::read"])

C("E03", "No entry name leads out of the destination",
  "Extraction only ever creates or changes files and directories below the destination: an entry whose name leads outside (absolute, or through parent components) is refused with an error before anything of it is written, and every other name is extracted at exactly that place.",
  ["inputs"], "all entry names within the bounds", "Fixtures have ordinary names.",
  ["src/de_funcs.rs"], [("decompress_impl: joining the destination and the name", "src/de_funcs.rs")], ["paths given to the extract function", "file system below and beside the destination"])
C("E05", "Extraction creates exactly the recorded files, directories, contents and times",
  "Every extraction helper (with and without password, from a reader or a file, with the default closure or one that calls it) leaves below the destination exactly the recorded entries: right kind, right content (replacing what was there), recorded times and no others, missing parents created, unrelated files untouched; a failing file system call makes it fail.",
  ["inputs", "fault_sequences", "histories"], "all contents, entry mixes and single faults within the bounds",
  "The tests extract a few fixtures into an empty directory and never see a failing call.",
  ["src/de_funcs.rs"], [("decompress_impl", "src/de_funcs.rs"), ("default_entry_extract_fn", "src/de_funcs.rs")], ["the file system after decompress*, decompress_file*, default_entry_extract_fn"])
C("W01", "What is pushed into a writer is what a reader finds",
  "Whatever sequence of directories, files, empty files and solid blocks is pushed, however the sources deliver and however little the sink takes at once, the finished archive opens and holds exactly these entries in this order with exactly these contents, sizes and checksums; the entry a push returns carries its size, packed size and checksum.",
  ["inputs", "histories", "configurations"], "all contents, push sequences, delivery and write sizes within the bounds",
  "The tests push one to three files from well-behaved sources into well-behaved sinks.",
  ["src/writer.rs", "src/encoders.rs", "src/reader.rs"],
  [("push_archive_entry, push_archive_entries, finish", "src/writer.rs"), ("CompressWrapWriter", "src/writer.rs"), ("SeqReader, SourceReader", "src/writer.rs"), ("CountingWriter", "lzma-rust/src/enc/counting.rs")],
  ["SevenZWriter", "SevenZReader"], HOOK)
C("W02", "A crash while writing never leaves a file taken for another archive",
  "If writing stops after any byte, or any writes before the crash are lost or torn, the file either does not open or is the complete archive: the same entries, and every content that is delivered without an error is the content that was pushed.",
  ["crash_points", "histories"], "every crash point and every loss of writes within the bounds",
  "No test interrupts a writer.",
  ["src/writer.rs", "src/reader.rs"], [("SevenZWriter::new leaves room for the start header, finish writes it last", "src/writer.rs"), ("read_header, try_to_locale_end_header", "src/reader.rs")],
  ["the file a writer leaves behind, opened by SevenZReader"])
C("W03", "A failing sink is reported by the push or by finish",
  "If any write, seek or flush of the sink fails, the push or the finish that needed it returns an error: success means that the sink accepted every byte of the archive.",
  ["fault_sequences"], "every single failing call, alone and with all later ones failing", "The tests write to memory and to working disks.",
  ["src/writer.rs", "src/encoders.rs", "src/aes256sha256.rs", "lzma-rust/src/enc"],
  [("push_archive_entry, push_archive_entries, finish", "src/writer.rs"), ("write_encoded_header", "src/writer.rs"), ("Aes256Sha256Encoder, LZMAWriter, LZMA2Writer", "src/encoders.rs")],
  ["SevenZWriter"], HOOK)
C("W04", "A failed push harms neither earlier nor later entries",
  "When a push fails because its source or the sink failed, the writer stays usable: the archive then holds exactly the entries whose pushes succeeded, with their contents.",
  ["fault_sequences", "histories"], "all places of the failing push in the sequence, all failing calls, arbitrary contents", "No test continues after a failed push.",
  ["src/writer.rs"], [("seek_pack_end and the order of recording", "src/writer.rs")], ["SevenZWriter", "SevenZReader"], HOOK)
C("W05", "A directory tree survives compression and extraction",
  "Compressing a directory or a file with any helper (compress, compress_to_path, their encrypted forms, push_source_path and its non-solid form with any filter) and extracting the archive again gives the same files, directories (where recorded), names, contents and modification times; the source is left alone; any failing file system call makes the helper fail.",
  ["inputs", "fault_sequences", "configurations"], "all trees, filters, helpers and single faults within the bounds", "The tests compress two fixed trees and know no failing call.",
  ["src/en_funcs.rs", "src/archive.rs", "src/writer.rs", "src/de_funcs.rs"],
  [("compress_path", "src/en_funcs.rs"), ("encode_path, collect_file_paths", "src/en_funcs.rs"), ("SevenZArchiveEntry::from_path", "src/archive.rs"), ("LazyFileReader", "src/writer.rs")],
  ["file system before and after compress* / push_source_path* / decompress_file*"])
C("A01", "Encryption is CBC over the whole stream, whatever the piece sizes",
  "The packed stream of an encrypted entry is the cipher-block-chaining encryption, with the recorded vector, of its content padded with zeros to whole blocks, however the content arrives at the encoder; decrypting gives the content back however the packed stream arrives and is asked for; a packed stream that ends early is an error.",
  ["inputs", "fault_sequences"], "all contents and vectors; piece sizes from one byte to more than the buffers", "One test encrypts one file in 4096-byte pieces and decrypts it with the same code.",
  ["src/aes256sha256.rs"], [("Cipher::update / do_final, Aes256Sha256Decoder::read", "src/aes256sha256.rs"), ("Aes256Sha256Encoder::write / flush", "src/aes256sha256.rs")],
  ["packed bytes written by SevenZWriter", "content delivered by SevenZReader"])
C("A02", "Encryption parameters of any form are parsed or refused, never a panic",
  "Arbitrary AES coder properties give either the parameters the format assigns to them or an error (too short, too many rounds; PasswordRequired if there is no password), never a panic; the properties the writer records describe its own parameters.",
  ["inputs"], "all property bytes within the bounds", "The tests read two fixtures with the usual properties.",
  ["src/aes256sha256.rs", "src/decoders.rs"], [("get_aes_key", "src/aes256sha256.rs"), ("AesEncoderOptions::write_properties", "src/aes256sha256.rs")], ["SevenZReader::new / for_each_entries", "AesEncoderOptions::properties"])
C("A03", "Keys are derived as the 7z format defines it",
  "The key used for a password is SHA-256 over 2^n repetitions of salt, password in UTF-16LE and a 64-bit counter (or, for n = 63, salt and password themselves, cut or padded with zeros to 32 bytes), and the vector is the recorded one padded with zeros: archives of other 7z implementations can be read, and theirs can read these.",
  ["inputs"], "all salts, vectors and passwords within the bounds", "Two fixtures pin one combination of lengths and rounds each.",
  ["src/aes256sha256.rs"], [("get_aes_key", "src/aes256sha256.rs")], ["content of an archive encrypted by an independent implementation (in the harness)"])
C("A04", "Passwords are encoded as UTF-16LE",
  "A password given as text is encoded as UTF-16LE, surrogate pairs included; one given as UTF-16 units is the same password; only the empty text is an empty password.",
  ["inputs"], "all texts within the bounds", "The tests use ASCII passwords.", ["src/password.rs"], [("From<&str>, From<&[u16]>", "src/password.rs")], ["Password::as_slice"])
C("A05", "Without the right password an encrypted archive reveals nothing",
  "With encrypted contents no content appears in the file; with header encryption (the default) no name does either, however small the header; without a password the reader says PasswordRequired, and with a wrong one it fails, never delivering the content.",
  ["inputs", "configurations"], "the archives and passwords within the bounds", "The tests check that the right password works.",
  ["src/writer.rs", "src/reader.rs", "src/decoders.rs", "src/aes256sha256.rs"], [("write_encoded_header", "src/writer.rs"), ("add_decoder", "src/decoders.rs")], ["bytes of the archive", "SevenZReader::new / for_each_entries"])
C("A06", "Every set of encryption options draws its own salt and vector",
  "Salt and initialisation vector of AesEncoderOptions::new are drawn afresh from the random generator, every byte of them: two sets of options share neither as long as the generator's words differ.",
  ["inputs", "histories"], "all words the generator can give", "A test cannot tell random from constant by one run, and none tries.",
  ["src/aes256sha256.rs"], [("AesEncoderOptions::new", "src/aes256sha256.rs")], ["AesEncoderOptions::iv / salt"])

LZD = ["lzma-rust/src/lzma2_reader.rs", "lzma-rust/src/lzma_reader.rs", "lzma-rust/src/decoder.rs", "lzma-rust/src/range_dec.rs", "lzma-rust/src/lz/lz_decoder.rs"]
C("L01", "LZMA2 chunks decode to what the format says",
  "An LZMA2 stream decodes to exactly the bytes its chunks stand for - plain or range-coded, with every combination of dictionary, state and property resets, sizes up to the field limits, with or without preset dictionary - and anything the format forbids (a first chunk without dictionary reset, range-coded data without properties, lc+lp above 4, unknown control bytes, a chunk whose sizes do not match its data, a missing end) is an error after the bytes before it.",
  ["inputs", "programs"], "all control bytes at every chunk together; sizes, properties and range-coder bytes one at a time; all read sizes listed",
  "The tests decode two files the same crate produced: resets in the middle of a stream, full 64 KiB chunks and malformed chunks never occur.",
  LZD, [("LZMA2Reader::decode_chunk_header, read_decode", "lzma-rust/src/lzma2_reader.rs")], ["LZMA2Reader: bytes read and errors"])
C("L02", "Damaged LZMA and LZMA2 data gives an error, never a panic or garbage",
  "Reading an LZMA or LZMA2 stream that is corrupt or cut anywhere ends in an error after at most bytes that the stream up to there really stands for; it never panics, never hangs, never goes on after an error. Unusable properties bytes, dictionary sizes and memory limits are refused when the reader is made.",
  ["inputs", "fault_sequences"], "arbitrary code bytes, headers, cut points, properties, dictionary sizes and memory limits within the bounds",
  "The tests decode intact streams only.",
  LZD, [("LZMAReader::new*, read_decode", "lzma-rust/src/lzma_reader.rs"), ("RangeDecoder, RangeDecoderBuffer", "lzma-rust/src/range_dec.rs"), ("LZDecoder::repeat", "lzma-rust/src/lz/lz_decoder.rs")],
  ["LZMAReader / LZMA2Reader: result of every read"])
C("L03", "LZMA operations decode as the format defines",
  "From any state of the decoder the next range-coded symbols decode to the literal, match, short or long repeat, or end marker the LZMA format assigns to them, with lengths, distance slots and alignments, literal contexts (lc, lp), position contexts (pb) and history kept exactly, also when the dictionary wraps around or output is read in pieces.",
  ["inputs", "histories"], "all 2^32 values of the code from a state; states as left by chosen operations",
  "The tests' data is decoded by the model the same crate encoded it with, and reaches few of the states, lengths and distances.",
  LZD, [("LZMADecoder::decode", "lzma-rust/src/decoder.rs"), ("RangeDecoder::decode_bit / decode_direct_bits", "lzma-rust/src/range_dec.rs"), ("LZDecoder", "lzma-rust/src/lz/lz_decoder.rs")],
  ["LZMAReader: bytes read"])
C("L07", "An LZMA stream's declared size and end marker are honoured exactly",
  "An LZMA stream of known size yields exactly that many bytes (or an error if it holds fewer or an operation reaches past it) whatever follows; one of unknown size ends at its end marker; with both, they have to agree as the format says. No size of 64 bits is cut, wrapped or allowed to shrink the dictionary.",
  ["inputs"], "all 2^64 declared sizes",
  "The tests use the true size of one file.",
  LZD, [("LZMAReader::construct2, read_decode", "lzma-rust/src/lzma_reader.rs"), ("LZDecoder::set_limit", "lzma-rust/src/lz/lz_decoder.rs")], ["LZMAReader: bytes read"])

C("L04", "What the LZMA and LZMA2 encoders write decodes to what was put in",
  "Whatever is written to an LZMA or LZMA2 writer, in whatever pieces and with flushes anywhere, under every option (mode, match finder, lc/lp/pb, nice length, dictionary, preset dictionary, header, size, end marker), the stream it writes is one the format defines - valid chunks, distances inside the dictionary - that decodes to exactly that data; the writer never panics.",
  ["inputs", "histories", "configurations"], "all choices of the symbolic pieces within the bounds",
  "The tests round-trip one file at default settings; matches at the dictionary's edge, resets, raw chunks, flushes and small dictionaries never occur, and encoder bugs are input-specific.",
  ["lzma-rust/src/lzma2_writer.rs", "lzma-rust/src/lzma_writer.rs", "lzma-rust/src/enc/", "lzma-rust/src/lz/"],
  [("LZMA2Writer, LZMAWriter", "lzma-rust/src/lzma2_writer.rs, lzma_writer.rs"), ("LZMAEncoder modes", "lzma-rust/src/enc/"), ("match finders", "lzma-rust/src/lz/hc4.rs, bt4.rs, lz_encoder.rs")],
  ["bytes written by the writers, decoded by an independent model and by the crate's readers"])
C("L05", "The range coder encodes and decodes every bit exactly",
  "From every state the range coder can be in, encoding a bit (under any probability), direct bits or the end, with any number of bytes held back for a carry, writes bytes whose value lies in exactly the interval of that symbol, and decoding picks the symbol whose interval holds the code; probabilities adapt alike on both sides.",
  ["inputs", "histories"], "any state: low, range, cache, held-back bytes, probability",
  "A carry through held-back FF bytes happens once in millions of symbols; the tests' one file may never contain one.",
  ["lzma-rust/src/range_enc.rs", "lzma-rust/src/range_dec.rs"], [("RangeEncoder::shift_low, encode_bit", "lzma-rust/src/range_enc.rs"), ("RangeDecoder::decode_bit", "lzma-rust/src/range_dec.rs")],
  ["bytes written and the coder's state"], hook="vse_hooks_lz: constructors and state access of the range coder")
C("L06", "The recorded LZMA2 dictionary size is enough for the data",
  "For every dictionary size of the encoder the properties byte recorded in the archive names the smallest size of the format that is at least as large, and reading allocates what any of the 41 defined bytes names, refusing the others and missing properties with an error.",
  ["inputs", "configurations"], "all 2^32 dictionary sizes; all property bytes",
  "The tests use the default sizes, which are exact powers of two.",
  ["src/encoders.rs", "src/decoders.rs"], [("get_options_as_properties", "src/encoders.rs"), ("get_lzma2_dic_size", "src/decoders.rs")], ["properties of the written coder; result of opening the coder"], hook="vse_hooks_lz: the property functions")
C("F05", "BCJ2 restores the original code exactly",
  "Decoding a BCJ2-filtered stream gives the original code for every sequence of calls, jumps and conditional jumps, converted or not, at every position up to and over 4 GiB, for every read size and delivery of the four streams; when one of the streams is damaged or ends early, the reader gives an error or a prefix, and never panics or hangs.",
  ["inputs", "schedules", "fault_sequences"], "all operands, probabilities' histories and start positions within the bounds; all cuts",
  "The one fixture is decoded in one read size; branches that straddle the buffer's end or the four streams' ends never occur.",
  ["src/bcj2.rs"], [("BCJ2Reader::read", "src/bcj2.rs"), ("decode", "src/bcj2.rs")], ["BCJ2Reader: bytes read and errors"], hook="vse_hooks_lz: BCJ2Reader")

N("X01", "Entries in bzip2, deflate or zstd decode to their content",
  "An entry stored with one of the optional third-party codecs is extracted with exactly its content, for any data, level and read size.",
  ["inputs", "configurations"], "all data and levels", "The fixtures hold one entry per codec.",
  ["src/decoders.rs", "src/encoders.rs"], [("add_decoder", "src/decoders.rs")], ["content delivered by SevenZReader"],
  "The codecs are third-party (bzip2 and zstd are C libraries behind FFI, linked as machine code): there is no LLVM IR of them within the executor's reach, and the crate itself only passes bytes through. How the crate chains any coder is decided by F01-F04, E01, E02.")
N("X02", "AES-256 and SHA-256 compute what their standards say",
  "The block cipher and the hash behind encrypted entries are AES-256 and SHA-256.",
  ["inputs"], "all keys and blocks", "Fixtures hold a few passwords.",
  ["src/aes256sha256.rs"], [("aes, sha2 crates", "Cargo.toml")], ["cipher text of encrypted archives"],
  "Third-party crates; deciding a cipher or a hash for all inputs by SMT is out of reach of any solver. What the crate does with them (key derivation's rounds and bytes, CBC chaining, padding, IV handling) is decided by A01-A06 over stand-ins.")
N("X03", "The JavaScript interface extracts what the archive holds",
  "decompress and compress called from JavaScript deliver the same entries as the Rust interface.",
  ["inputs"], "all archives", "No test runs in a browser.",
  ["src/wasm.rs"], [("wasm_bindgen glue", "src/wasm.rs")], ["calls of the JavaScript callback"],
  "Compiles for wasm32 only and consists of calls into a JavaScript engine, which no installed solver-based tool can execute; the target is not installed either.")

TECH = "bounded symbolic execution of the compiled code's LLVM IR, Z3 deciding every branch and assertion"
NOTE = ("Within the stated bounds the executor enumerates every feasible path of the real code and Z3 decides each assertion for all values on it; "
        "counterexamples are replayed natively before they are reported. Trusted: the executor's IR semantics (self-tested, and sampled paths replayed natively on every run), Z3, "
        "rustc/LLVM, the CRC stand-in%s. Outside the bounds nothing is claimed. ")


def main():
    import props
    with open(V + "/properties.jsonl", "w") as f:
        for c in CAT:
            f.write(json.dumps(c) + "\n")
    na = {n["property"] for n in NA}
    checks = []
    for c in CAT:
        if c["id"] in na:
            continue
        P = props.PROPS[c["id"]]
        checks.append({"property": c["id"], "quick_cmd": "python3 driver/check.py %s quick" % c["id"],
                       "thorough_cmd": "python3 driver/check.py %s thorough" % c["id"],
                       "technique": TECH, "level": "model_checking",
                       "level_note": (NOTE % "") + "Bounds: " + P["bounds"] + ". Outside: " + P["outside"] + "."})
    extra = set(props.PROPS) - {c["id"] for c in CAT}
    assert not extra, extra
    commits = [x for x in open(V + "/driver/hook_commits").read().split()]
    m = {"version": 1, "setup_cmd": "python3 driver/build.py",
         "hooks": {"guard": "vse_hooks", "enable": "RUSTFLAGS='--cfg vse_hooks' (set by driver/build.py)", "source_commits": commits},
         "checks": checks, "not_applicable": NA,
         "notes": "Genuine defects found and repaired are listed in known_findings.json; DESIGN.md explains the engine, the bounds and the stand-ins."}
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
