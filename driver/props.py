"""Which harness entries, with which parameters and bounds, decide each property."""

ASSUMPTIONS = [
    "CRC-32 is replaced by a cheap order-, content- and length-sensitive checksum (harness/stubs/crc): what is checksummed and what is compared is decided, not CRC-32 itself",
    "LLVM IR of the crate and std as compiled by the installed rustc (opt-level 2, overflow checks on); memory allocation never fails below 64 MiB",
]
PROPS = {}


def J(entry, *params, reach=(1,), time=240, opts=(), weight=1):
    return {"entry": entry, "params": list(params), "reach": list(reach), "time": time, "opts": list(opts), "weight": weight}


def P(id, quick, bounds, outside, thorough=(), quick_s=240, thorough_s=3000, **kw):
    PROPS[id] = dict(quick=list(quick), thorough=list(thorough), bounds=bounds, outside=outside, quick_s=quick_s, thorough_s=thorough_s, **kw)


def bits_of(n):
    return [1 << i for i in range(n)]


P("H01", [J("h_number")] + [J("h_number_rt", i) for i in range(3)],
  "none on the value (all 2^64), all 1..9-byte encodings; one number of a header symbolic at a time",
  "truncated encodings (H07)")

P("H02",
  # kinds of up to five entries, alone and across the byte boundary of the vectors
  [J("h_meta", 0, 0, 4, 1, 0), J("h_meta", 7, 1, 2, 1, 1), J("h_meta", 7, 2, 2, 1, 0), J("h_meta", 6, 3, 3, 1, 7), J("h_meta", 15, 1, 2, 1, 0)]
  # each fact alone for up to 4 entries, and across a byte boundary
  + [J("h_meta", 0, 0, 4, w, 0) for w in (2, 4, 8, 16)] + [J("h_meta", 6, 0, 3, w, 2) for w in (2, 4, 8, 16)]
  # facts together
  + [J("h_meta", 0, 1, 2, w, 0) for w in (6, 10, 18, 12, 20, 24, 30)] + [J("h_meta", 1, 0, 1, 31, 1)],
  "up to 24 entries of which up to 4 symbolic (kind, times, attributes, presence), bit vectors up to three bytes",
  "more symbolic entries at once; all facts of several entries symbolic at once",
  thorough=[J("h_meta", 0, 0, 5, 1, 0, time=900), J("h_meta", 0, 0, 6, 1, 0, time=1500, weight=9), J("h_meta", 7, 1, 2, 31, 0, time=1500, weight=9), J("h_meta", 0, 3, 2, 31, 0, time=1500, weight=9)]
  + [J("h_meta", 5, 0, 6, w, 5, time=900) for w in (2, 4, 8, 16)])

P("H03", [J("h_names", 1, k) for k in (1, 2, 3)] + [J("h_names", 2, 1), J("h_names", 2, 2), J("h_names", 3, 1)],
  "up to three names, up to three symbolic scalar values per name (256 UTF-8/UTF-16 length patterns)",
  "longer names; names with NUL (the format cannot hold them); unpaired surrogates",
  thorough=[J("h_names", 1, 4, time=900), J("h_names", 1, 5, time=1500, weight=9), J("h_names", 3, 2, time=1500, weight=9)])

P("H04",
  [J("h_files_read", 0, 0, 4, 1, 0), J("h_files_read", 7, 1, 2, 1, 1), J("h_files_read", 7, 0, 2, 1, 1), J("h_files_read", 6, 3, 3, 1, 7)]
  + [J("h_files_read", 0, 0, 4, w, 0) for w in (2, 4, 8, 16)] + [J("h_files_read", 6, 1, 3, w, 2) for w in (2, 4, 8, 16)]
  + [J("h_files_read", 0, 1, 2, w, 0) for w in (6, 10, 18, 12, 20, 24, 30)] + [J("h_files_read", 1, 0, 1, 31, 1)],
  "up to 16 entries of which up to 4 symbolic", "more symbolic entries; external data references; archive properties",
  thorough=[J("h_files_read", 0, 0, 5, 1, 0, time=900), J("h_files_read", 7, 1, 2, 31, 0, time=1500, weight=9)])

P("H05",
  [J("h_layout", 3, 15, s) for s in ("0x1", "0x21", "0x213", "0x302", "0x0f2", "0x2f1")]
  + [J("h_layout", 2, w, s) for s in ("0x02", "0x20", "0x11") for w in (0, 1, 2)] + [J("h_layout", 1, w, "0x2") for w in (0, 1, 2)]
  + [J("h_layout", 1, 1, "0x3"), J("h_layout", 1, 15, "0x4")],
  "up to three folders of up to four entries; all checksums symbolic; one size over all of 0..2^64, the others below 128",
  "several sizes above 127 at once; more folders",
  thorough=[J("h_layout", 2, w, "0x23", time=600) for w in range(8)] + [J("h_layout", 4, 15, s, time=600) for s in ("0x1203", "0x2131", "0x0f20")])

P("H06",
  [J("h_layout_read", 3, 15, s, 7, weight=3) for s in ("0x121", "0x102", "0x110")] + [J("h_layout_read", 2, 15, s, 15) for s in ("0x11", "0x20", "0x02", "0x12")]
  + [J("h_layout_read", 1, w, s, 0) for s in ("0x1", "0x2", "0x3") for w in (0, 1, 2)] + [J("h_layout_read", 2, w, "0x12", 0) for w in range(5)]
  + [J("h_layout_read", 1, 15, "0x4", 7)],
  "up to three folders of up to five sub-streams; every definedness pattern of all digests; one size over all of 0..2^64, others below 128",
  "several sizes above 127 at once; more folders; archives without any sub-stream section",
  thorough=[J("h_layout_read", 1, 15, "0x5", 7, time=600), J("h_layout_read", 2, 2, "0x32", 15, time=1500, weight=9), J("h_layout_read", 3, 15, "0x212", 7, time=1500, weight=9), J("h_layout_read", 2, 1, "0x21", 15, time=900, weight=5)])

CH = [(100, 100), (3, 3), (1, 100), (100, 1), (5, 7)]
P("F01", [J("h_bcj", 0, n, 0, c, s) for n in (5, 9, 12) for c, s in CH] + [J("h_bcj", 0, 9, pre, c, s) for pre in (4091, 4094, 8190) for c, s in ((9000, 9000), (4096, 100), (7, 4096))]
  + [J("h_bcj_ref", 0, 12)],
  "12 symbolic bytes at the start of a stream, 9 across the 4096-byte buffer boundary; read sizes and source delivery sizes 1..100",
  "longer symbolic windows; positions beyond 2^31", thorough=[J("h_bcj", 0, 14, 0, c, s, time=600) for c, s in CH] + [J("h_bcj", 0, 12, 4090, 9000, 100, time=900)])
P("F02", [J("h_bcj", 1, n, 0, c, s) for n in (6, 16) for c, s in CH] + [J("h_bcj", 2, n, 0, c, s) for n in (7, 14) for c, s in CH]
  + [J("h_bcj", w, 10, pre, c, s) for w in (1, 2) for pre in (4092, 4090) for c, s in ((9000, 9000), (7, 4096))] + [J("h_bcj_ref", 1, 12), J("h_bcj_ref", 2, 12)],
  "16 symbolic bytes (ARM), 14 (Thumb) at the start, 10 across the 4096-byte buffer boundary; read and delivery sizes 1..100",
  "longer symbolic windows; positions beyond 2^31", thorough=[J("h_bcj", 2, 24, 0, 100, 100, time=900), J("h_bcj", 1, 40, 0, 5, 7, time=900)])
P("F03", [J("h_bcj", w, n, 0, c, s) for w in (3, 4) for n in (6, 16) for c, s in CH]
  + [J("h_bcj", w, 10, pre, c, s) for w in (3, 4) for pre in (4092, 4090) for c, s in ((9000, 9000), (7, 4096))] + [J("h_bcj_ref", 3, 12), J("h_bcj_ref", 4, 12)],
  "16 symbolic bytes at the start, 10 across the 4096-byte buffer boundary; read and delivery sizes 1..100",
  "longer symbolic windows; positions beyond 2^31", thorough=[J("h_bcj", w, 32, 0, 5, 7, time=900) for w in (3, 4)])
P("F04", [J("h_delta", 24, d, c, s) for d in (0, 1, 2, 3, 7, 16, 255) for c, s in CH] + [J("h_delta", 600, d, c, s) for d in (0, 1, 127, 128, 254, 255, 256) for c, s in ((1000, 1000), (13, 200))],
  "600 symbolic bytes, distances 1..256 sampled at the ends and middle, read and delivery sizes 1..1000",
  "other distances in quick runs", thorough=[J("h_delta", 520, d, 100, 77) for d in range(1, 257)])

P("E01",
  [J("h_visit", *a) for a in ((4, 1, 3, 64, 0, 0, 4), (4, 3, 0, 1, 1, 0, 4), (4, 0, 0, 2, 0, 0, 5), (3, 2, 0, 3, 0, 1, 4), (3, 0, 0, 3, 0, 2, 4), (3, 1, 0, 1, 2, 1, 5),
                              (3, 1, 2, 1, 0, 2, 5), (4, 1, 0, 3, 0, 3, 4), (3, 1, 0, 64, 0, 0, 5), (3, 3, 0, 64, 0, 3, 5))],
  "every mix of up to four entries (no stream, new block, same block, empty stream, block without entries); one- and two-byte contents; one pack position; read and delivery sizes 1..64",
  "more entries; blocks whose coders are not Copy (E04); closures that leave content unread (E05)",
  thorough=[J("h_visit", *a, time=1500, weight=9) for a in ((5, 1, 0, 3, 0, 0, 5), (5, 3, 1, 1, 2, 0, 5), (5, 1, 0, 3, 0, 1, 4), (5, 0, 0, 3, 0, 3, 4), (6, 0, 0, 64, 0, 0, 4))])
P("E02",
  [J("h_integrity", *a, reach=(1, 2) if a[3] == 0 and a[2] else (2,) if a[3] else (1,)) for a in
   ((1, 2, 1, 0, 64, 0, 0), (1, 2, 2, 0, 1, 0, 1), (2, 2, 3, 0, 3, 0, 0), (2, 2, 1, 1, 64, 0, 0), (2, 3, 2, 0, 2, 1, 0), (2, 2, 0, 1, 2, 0, 0), (3, 1, 3, 0, 1, 0, 0),
    (2, 2, 0, 3, 2, 0, 0), (1, 5, 1, 2, 2, 0, 1), (1, 4, 0, 1, 64, 3, 0), (3, 2, 1, 0, 1, 1, 1), (1, 3, 3, 0, 2, 1, 0), (2, 2, 3, 2, 3, 0, 0), (1, 3, 3, 3, 3, 0, 1))],
  "up to three entries of up to five bytes in one block; all contents and all recorded checksums; up to three bytes missing; read and delivery sizes 1..64, empty reads in between",
  "longer contents; several blocks; closures that stop reading before the end of an entry (nothing is promised then)",
  thorough=[J("h_integrity", *a, reach=(1, 2), time=900) for a in ((4, 2, 3, 0, 3, 0, 0), (3, 4, 3, 0, 5, 3, 1), (2, 8, 1, 0, 3, 0, 0), (4, 1, 1, 0, 1, 1, 1))])
P("E04",
  [J("h_chain", c, n, pm, 13, ch, s, y) for c, n, pm, ch, s, y in
   (("0x13", 2, 0, 5, 7, 3), ("0x31", 2, 0, 5, 7, 4), ("0x31", 2, 1, 5, 7, 3), ("0x15", 2, 1, 5, 7, 4), ("0x51", 2, 1, 1, 3, 4), ("0x315", 3, 3, 5, 0, 4),
    ("0x513", 3, 5, 4, 3, 4), ("0x142", 3, 2, 4, 3, 4), ("0x31", 2, 0, 64, 0, 4), ("0x4231", 4, 9, 5, 2, 3))],
  "chains of two to four of Copy, Delta, ARM and PowerPC in several listing orders; 3 or 4 symbolic bytes of 13; read and delivery sizes 1..64",
  "other coders in chains (LZMA, AES: their own properties); all listing orders in quick runs",
  thorough=[J("h_chain", c, 3, pm, 13, 5, 3, 4, time=900) for c in ("0x315", "0x142", "0x513") for pm in range(6)])

BIG = ("--alloc", "300000000", "--steps", "400000000")
P("E03",
  [J("h_contain", n, 0, 0, d, reach=(1, 2)) for n in (3, 4, 5, 6) for d in (0, 1)]
  + [J("h_contain", 3, 1, 0, 1, reach=(1,)), J("h_contain", 3, 2, 0, 0, reach=(2,)), J("h_contain", 2, 2, 1, 0, reach=(2,)), J("h_contain", 3, 3, 0, 0, reach=(1, 2)),
     J("h_contain", 3, 3, 1, 0, reach=(1, 2))] + [J("h_contain", n, 0, 1, d, reach=(1, 2)) for n in (3, 4, 5) for d in (0, 1)],
  "names of up to six arbitrary ASCII characters, alone or behind a/, ../ and a/../; files and directories; no links in the file system",
  "non-ASCII names (no character of theirs is a separator); Windows prefixes and separators; links already present below the destination",
  thorough=[J("h_contain", 7, 0, r, d, reach=(1, 2), time=900) for r in (0, 1) for d in (0, 1)] + [J("h_contain", 6, k, 0, 0, reach=(1, 2) if k == 3 else (k,), time=900) for k in (1, 2, 3)])
P("E05",
  [J("h_extract", *a, reach=(1, 2) if a[2] else (1,)) for a in
   ((3, 0, 0, 0, 0, 6, 0), (3, 1, 0, 1, 1, 6, 0), (2, 0, 1, 0, 0, 6, 0), (2, 1, 3, 1, 2, 6, 0), (2, 2, 0, 0, 2, 6, 0), (2, 3, 3, 0, 1, 5, 0), (3, 4, 0, 0, 2, 6, 0),
    (1, 0, 0, 0, 1, 1, 1), (2, 0, 0, 0, 0, 1, 2), (1, 0, 0, 0, 1, 1, 3), (3, 0, 0, 0, 0, 6, 3), (2, 4, 1, 0, 0, 6, 0))],
  "every mix of up to three entries (files, empty files, files in directories that are not recorded, directories); destination absent, present, or with older files; one failing call anywhere; short writes; times around a full second and around the epoch",
  "contents beyond two bytes; several blocks (E01); links; access rights; systems other than Linux",
  thorough=[J("h_extract", *a, reach=(1, 2) if a[2] else (1,), time=900) for a in ((4, 0, 0, 0, 0, 6, 0), (4, 1, 3, 1, 2, 6, 0), (3, 4, 3, 0, 2, 6, 0), (3, 2, 3, 1, 0, 6, 2))])
P("W01",
  [J("h_push", *a, opts=BIG) for a in ((1, 0x1ff & ~0x60, 1, 0, 0, 3, 0), (2, 0x19f, 1, 0, 0, 2, 0), (3, 0xf, 1, 1, 5, 2, 0), (2, 0x9f, 2, 0, 0, 17, 0), (3, 0x0b, 2, 3, 7, 5, 0),
                                       (2, 0x19f, 1, 7, 1, 33, 0), (1, 0x0a, 1, 0, 0, 255, 0))]
  + [J("h_finish", *a, opts=BIG) for a in ((3, 0x11f, 1, 0, 0, 3, 0, 0), (2, 0x11f, 3, 0, 7, 20, 0, 0), (2, 0xb, 4, 5, 0, 40, 0, 0), (2, 0x11f, 5, 0, 0, 8, 0, 1), (0, 0, 3, 0, 0, 0, 0, 0),
                                           (2, 0x13, 1, 0, 3, 8, 0, 1), (1, 8, 4, 0, 0, 3000, 0, 0), (2, 0xa, 3, 700, 0, 5000, 0, 0))],
  "every mix of up to three pushes (directory, file, no reader, empty reader, solid block of two or three, methods changed in between); arbitrary contents of up to 255 bytes behind one or two AES coders; concrete contents of up to 5000 bytes behind LZMA and LZMA2; any source delivery and short writes",
  "arbitrary contents behind the LZMA encoders (their matching cannot be encoded: L04); more entries (H02 to H05 cover their headers)",
  thorough=[J("h_push", *a, opts=BIG, time=900) for a in ((4, 0x19f, 1, 0, 0, 2, 0), (3, 0x19f, 2, 3, 5, 18, 0), (2, 0x0b, 2, 100, 50, 1000, 0))]
  + [J("h_finish", *a, opts=BIG, time=900) for a in ((3, 0x19f, 5, 0, 5, 30, 0, 1), (2, 0x1b, 4, 100, 0, 20000, 0, 0), (2, 0x1b, 3, 0, 100, 70000, 0, 0))])
P("W02",
  [J("h_crash", *a, reach=r, opts=BIG) for a, r in
   (((1, 0x1, 3, 0, 20, 0, 0), (1, 2)), ((2, 0x13, 3, 0, 20, 0, 0), (1, 2)), ((2, 0x13, 1, 0, 20, 1, 0), (1, 2)), ((2, 0x13, 3, 0, 20, 0, 1), (1, 2, 3)), ((2, 0x13, 5, 7, 20, 1, 0), (1, 2)),
    ((3, 0x201, 3, 0, 20, 0, 2, 8), (1, 2, 3)), ((2, 0x31, 4, 0, 9, 0, 1, 8), (1, 2, 3)), ((3, 0x081, 1, 0, 20, 1, 2, 8), (1, 2)), ((0, 0, 3, 0, 0, 0, 0), (1, 2)))],
  "archives of up to five entries with compressed, encrypted and plain headers; the writer stops after any byte of any write; any one write lost with any other torn; any of the last eight writes lost",
  "contents are concrete; writes reordered beyond loss (their effect on the file is the same); CRC collisions",
  thorough=[J("h_crash", *a, reach=r, opts=BIG, time=900) for a, r in (((3, 0x271, 4, 0, 9, 0, 1, 8), (1, 2, 3)), ((3, 0x823, 5, 3, 40, 1, 0), (1, 2)), ((2, 0x33, 3, 9, 40, 0, 2, 11), (1, 2, 3)))])
P("W03",
  [J("h_finish", *a, reach=(1, 2), opts=BIG) for a in ((1, 2, 3, 0, 0, 20, 1, 0), (2, 9, 5, 0, 0, 20, 2, 1), (2, 0xa, 4, 0, 7, 20, 1, 0), (3, 3, 1, 0, 0, 8, 2, 1), (0, 0, 3, 0, 5, 0, 1, 0))]
  + [J("h_push", *a, reach=(1, 2), opts=BIG) for a in ((2, 0x0b, 1, 3, 0, 2, 2), (2, 0x19f, 1, 3, 7, 20, 1))],
  "up to three entries; any one call of the sink fails (write, seek, flush), alone or with all that follow; short writes",
  "failures of the source: W04; panics inside the sink")
P("W04",
  [J("h_push", *a, reach=(1, 2) if a[6] else (1,), opts=BIG) for a in
   ((2, 0x1ff, 1, 3, 7, 2, 1), (3, 0x6a, 1, 0, 3, 1, 0), (3, 0x2b, 1, 0, 0, 1, 1), (3, 0x6a, 2, 0, 0, 20, 0), (3, 0x42, 1, 0, 0, 33, 1), (3, 0x0b, 1, 0, 5, 1, 2))],
  "every mix of up to three pushes in which any source fails at its end, the second source of a block fails, or any one call of the sink fails; arbitrary contents",
  "sinks whose content differs from what they reported as written",
  thorough=[J("h_push", *a, reach=(1, 2), opts=BIG, time=900) for a in ((4, 0x6b, 1, 0, 0, 1, 1), (3, 0x1ff, 1, 0, 0, 18, 1))])
P("W05",
  [J("h_tree", *a, reach=(1, 2) if a[3] else (1,), opts=BIG) for a in
   ((0, 2, 0, 0, 0), (0, 2, 0, 1, 0), (0, 2, 0, 2, 0), (1, 3, 0, 0, 0), (1, 2, 0, 3, 0), (2, 3, 0, 0, 1), (2, 2, 0, 3, 0), (1, 3, 0, 0, 1), (3, 2, 0, 0, 0), (3, 1, 0, 3, 0), (4, 2, 0, 0, 0), (5, 2, 0, 0, 0),
    (0, 1, 1, 3, 0), (1, 1, 1, 0, 0), (2, 1, 1, 0, 0), (3, 1, 1, 0, 0))],
  "every tree of up to three files, empty files and directories in any nesting; a single file; a filter that skips a subtree; every helper; one failing call anywhere, reading or writing",
  "contents beyond 1040 bytes, arbitrary contents (W01); files that change meanwhile; links and special files; names that are not UTF-8; blocks of 4 GiB",
  thorough=[J("h_tree", *a, reach=(1, 2) if a[3] else (1,), opts=BIG, time=1500, weight=4) for a in ((0, 3, 0, 3, 0), (1, 4, 0, 0, 1), (3, 3, 0, 0, 0), (0, 4, 0, 0, 0), (2, 3, 0, 3, 1))])
P("A01",
  [J("h_aes_dec", *a, reach=(2,) if a[3] > (16 - a[0] % 16) % 16 or a[3] and a[3] % 16 else (1,)) for a in
   ((5, 0, 64, 0, 5), (40, 3, 7, 0, 40), (33, 1, 1, 0, 33), (600, 0, 64, 0, 20), (1040, 700, 100, 0, 30), (20, 5, 7, 3, 9), (32, 0, 64, 16, 4), (32, 0, 64, 32, 4), (0, 0, 64, 0, 0), (520, 511, 13, 0, 24),
    (48, 17, 5, 0, 48), (31, 15, 64, 0, 31), (47, 16, 3, 1, 47), (64, 513, 1, 0, 64))]
  + [J("h_aes_enc", *a) for a in (("0x0521", 2, 0, 0), ("0x1020", 2, 7, 5), ("0x11", 1, 1, 1), ("0x012f", 2, 3, 0), ("0x0f1001", 3, 15, 0), ("0x4080", 2, 17, 16), ("0xff", 1, 33, 9))],
  "contents of up to 255 arbitrary bytes (1040 with the last 30 arbitrary), arbitrary vector, several delivery, read and write sizes; packed data cut",
  "AES itself (replaced by an invertible block permutation with the same interface; cipher block chaining is the real one)",
  thorough=[J("h_aes_dec", n, m, c, 0, 64, time=600) for n in (63, 512, 513, 1500) for m in (1, 5, 16, 31, 512) for c in (1, 16, 511)]
  + [J("h_aes_enc", "0x%x" % n, 2, m, s, time=600) for n in (0x1f01, 0x3f10, 0x8011) for m in (1, 2, 15, 16, 31) for s in (0, 1, 15)])
P("A02",
  [J("h_aes_props", *a, reach=(2,) if a[0] < 2 or not a[2] else (1, 2)) for a in ((0, 1, 1), (1, 1, 1), (2, 1, 1), (4, 1, 1), (6, 2, 0), (9, 0, 2), (34, 0, 1))]
  + [J("h_aes_enc", "0x0110", 2, 0, 0)],
  "all property bytes up to 34, with a password and without; 2^2 derivation rounds at most",
  "derivations with more rounds (only their number differs)")
P("A03",
  [J("h_aes_key", *a) for a in ((0, 0, 0, 1, 7), (1, 16, 16, 3, 7), (2, 3, 8, 2, 7), (63, 16, 16, 3, 7), (63, 16, 8, 12, 7), (3, 7, 1, 1, 7), (0, 5, 15, 9, 7), (4, 4, 4, 20, 7), (9, 2, 0, 1, 0), (63, 0, 16, 20, 7))],
  "arbitrary salts, vectors and passwords of up to 20 characters; up to 2^4 rounds (2^9 with concrete values); no derivation (63)",
  "more rounds; SHA-256 itself (the real one, in its portable form, is executed on both sides)",
  thorough=[J("h_aes_key", p, s, i, l, 7, time=600) for p in (5, 6) for s in (0, 8, 16) for i in (0, 16) for l in (1, 7)] + [J("h_aes_key", 16, 8, 16, 5, 0, time=900)])
P("A04", [J("h_password", n) for n in range(6)], "all texts of up to five bytes, all UTF-16 units", "longer texts (every character is treated alone)",
  thorough=[J("h_password", n, time=900) for n in (6, 7)])
P("A05",
  [J("h_secret", m, s, e, x, w, opts=BIG) for m, s, e, x, w in
   ((0, 0, 1, 1, 0), (1, 1, 1, 2, 0), (0, 1, 0, 0, 0), (1, 0, 1, 0, 1), (1, 0, 0, 1, 2), (0, 0, 1, 1, 4), (0, 0, 0, 1, 3), (1, 1, 0, 0, 4), (0, 1, 1, 2, 3), (1, 0, 1, 2, 2))],
  "archives of two or three entries, single and solid, AES alone and over LZMA2, header encrypted or not; four wrong passwords and none; concrete contents and names",
  "arbitrary contents; AES itself (replaced by a keyed permutation)")
P("A06", [J("h_random", 2), J("h_random", 3)], "up to three sets of options; all words the random generator can give", "the operating system's randomness and ChaCha (replaced by arbitrary words)")

L2 = BIG + ("--enum", "3000")
P("L01",
  [J("h_lzma2", *a, reach=(1, 3), opts=L2) for a in (
      # the control bytes of the second, third chunk: all 256
      ("0x1b0e", "0x020101010001", "0x105d", 0, 0, 100, 64, 63, 0), ("0x1b220e", "0x0301020101010001", "0x103f", 0, 0, 7, 64, 63, 0),
      ("0x1c2521", "0x0301020101010001", "0xcb8", 0, 0, 5000, 9000, 63, 0), ("0x1b2a25", "0x0301020101010001", "0xc24", 5000, 0, 4096, 3, 63, 0),
      ("0x1a0a02", "0x0301020101010001", "0x105d", 20, 0, 1, 1, 63, 0),
      # sizes and properties
      ("0x1b0e", "0x0104", "0x105d", 0, 0, 1, 64, 63, 0), ("0x1b0e", "0x0110", "0x105d", 0, 0, 1000, 64, 63, 0), ("0x1b220e", "0x0104", "0x103f", 0, 0, 100, 1, 63, 0),
      ("0x1b220e", "0x0102", "0x103f", 0, 0, 5000, 5000, 63, 0), ("0x1b0e", "0x0108", "0x105d", 0, 0, 1000, 64, 63, 0), ("0x1b0e", "0x20", "0x105d", 0, 0, 1, 64, 63, 0),
      # chunks of 64 KiB, cut short
      ("0x2b0e", "0", "0x105d", 0, 0, 1000, 300, 63, 0), ("0x2b2a0e", "0", "0x105d", 0, 40, 1000, 300, 63, 0), ("0x0c0a0e", "0", "0x105d", 0, 60, 7, 5, 63, 0),
      # arbitrary bytes of a range-coded chunk
      ("0x1b0e", "0", "0x105d", 0, 0, 100, 64, 63, "0x100102"))],
  "one to three chunks; control bytes (all 256) of every chunk at once, or one other header byte, symbolic; the sizes of a chunk taken one by one; histories up to 64 KiB, plain, range-coded, with preset dictionary",
  "longer streams; several sizes symbolic at once",
  thorough=[J("h_lzma2", *a, reach=(), opts=L2, time=900) for a in (
      ("0x1b0e", "0x104", "0x105d", 0, 60, 1, 64, 63, 0), ("0x1b0e", "0", "0x105d", 0, 0, 100, 64, 13, "0x300102"), ("0x2b0e", "0x0104", "0x105d", 0, 0, 100, 64, 63, 0),
      ("0x1b220e", "0x0106", "0x103f", 0, 0, 5000, 5000, 63, 0), ("0x1a220e", "0x0301020101010001", "0x103f", 0, 0, 7, 64, 63, 0))])

P("L02",
  [J("h_lzma", *a, reach=(1, 2), opts=L2) for a in (("0", "0xc203", 0, 6, 32, 0, 4, 33, 64, 25), ("0x1128370000000000", "0xc203", 100, 6, 40, 0, 4, 33, 64, 13), ("0x1100000000000000", "0xc404", 3, 8, 170, 0, 2, 5, 1, 13))]
  + [J("h_lzma2", *a, reach=(1, 2), opts=L2) for a in (
      ("0x1b0e", "0", "0x105d", 0, 0, 100, 64, 63, "0x100102"), ("0x2b2a0e", "0", "0x105d", 0, 40, 1000, 300, 63, 0), ("0x0c0a0e", "0", "0x105d", 0, 60, 7, 5, 63, 0),
      ("0x1b0e", "0x0110", "0x105d", 0, 0, 1000, 64, 63, 0), ("0x1b0e", "0x20", "0x105d", 0, 0, 1, 64, 63, 0), ("0x1b2a25", "0x0301020101010001", "0xc24", 5000, 0, 4096, 3, 63, 0))]
  + [J("h_lzma_size", *a, reach=(1, 2), opts=L2) for a in (
      ("0x1100000000000000", "0xc203", 0, 1, 10, 3, 64, 0, 10), ("0x1100000000000000", "0xc203", 0, 1, 18, 33, 64, 0, 0), ("0x1100000000000000", "0xc203", 0, 0, 18, 3, 64, 0, 3),
      ("0x1128300000000000", "0xc203", 5000, 1, 9, 30, 300, 5, 3), ("0x1100000000000000", "0xc203", 0, 0, 5, 5, 5, 3, 3))],
  "an LZMA stream whose next four code bytes are symbolic within a shard of the range, an LZMA2 stream with arbitrary control, properties or range-coder bytes or cut at every place, any properties byte, dictionary size, memory limit",
  "longer arbitrary streams; running out of memory",
  thorough=[J("h_lzma", "0", "0xc203", 0, 6, k, 0, 4, 33, 64, 25, reach=(), opts=L2, time=600) for k in range(30, 36)]
  + [J("h_lzma_size", "0x1100000000000000", "0xc203", 100, 1, 5, 5, 5, 3, 6, opts=L2, time=900)])

STATES = (("0x1128370000000000", "0xc203", 5000), ("0", "0xc231", 4100), ("0x1128000000000000", "0xc404", 5000), ("0x1128300000000000", "0xd213", 300))
P("L03",
  # every next operation in a state of the decoder
  [J("h_lzma", p, l, d, 3, k, 0, 1000, 300, 64, 13, reach=(1, 3), opts=L2) for p, l, d in STATES[:3] for k in range(8)]
  # two bytes more, in other states
  + [J("h_lzma", *a, reach=(), opts=L2) for a in (
      ("0x1128370000000000", "0xc203", 5000, 2, 3, 0, 1, 33, 64, 25), ("0x1128f00000000000", "0xc404", 5000, 7, 90, 0, 2, 50, 5, 13), ("0x1d00000000000000", "0xc203", 5000, 9, 80, 0, 2, 7, 64, 13),
      ("0x1129300000000000", "0xc203", 5000, 7, 91, 0, 2, 1, 5, 13), ("0", "0xc231", 4100, 9, 353, 0, 2, 300, 5, 13), ("0x1113456280000000", "0xc103", 50, 6, 63, 0, 3, 50, 3, 13),
      ("0x1112837f00000000", "0xc203", 5000, 7, 81, 0, 2, 300, 5, 13), ("0x1d00000000000000", "0xc231", 4100, 7, 103, 0, 2, 1, 1, 13))],
  "from three states of the decoder (as left by a given sequence of literals, matches and repeats) every next whole operation (all values of the 32-bit code; distances up to 128), from eight more two or three bytes of output within a shard of the code's values; dictionaries of 4 to 8 KiB that wrap around; lc, lp, pb of four kinds; preset dictionaries up to 5000 bytes",
  "longer sequences of arbitrary operations; larger dictionaries; arbitrary probability states",
  thorough=[J("h_lzma", p, l, d, 4, k, 0, 1000, 300, 64, 13, reach=(), opts=L2, time=900) for p, l, d in (STATES[3:] + (
      ("0x1129300000000000", "0xc404", 5000), ("0x11f2837000000000", "0xc103", 5000), ("0x1d00000000000000", "0xc008", 4096))) for k in range(16)]
  + [J("h_lzma", "0x1128370000000000", "0xc203", 5000, 5, k, 0, 1000, 300, 64, 25, reach=(), opts=L2, time=900) for k in range(0, 32, 3)])

P("L07",
  [J("h_lzma_size", *a, reach=(1, 4), opts=L2) for a in (
      ("0x1100000000000000", "0xc203", 0, 1, 10, 3, 64, 0, 10), ("0x1100000000000000", "0xc203", 0, 1, 18, 33, 64, 0, 0), ("0x1100000000000000", "0xc203", 0, 0, 18, 3, 64, 0, 3),
      ("0x1128370000000000", "0xc203", 5000, 1, 0, 33, 64, 20, 0), ("0x1128370000000000", "0xc203", 5000, 1, 0, 5, 5, 20, 25), ("0x1128300000000000", "0xc203", 5000, 1, 9, 30, 300, 5, 3),
      ("0x1128300000000000", "0xc048", 2000, 1, 1, 30, 300, 5, 100), ("0x1100000000000000", "0xc203", 0, 0, 0, 33, 64, 64, 5), ("0x1100000000000000", "0xc203", 0, 1, 2, 1, 1, 0, 3))],
  "any declared size (all of 0..2^64; those up to a little over what the data holds one by one), with and without end marker, trailing bytes or missing data, three ways to open; streams of up to five operations",
  "sizes between the data's and twice the dictionary's other than around the dictionary's",
  thorough=[J("h_lzma_size", *a, reach=(), opts=L2, time=900) for a in (("0x1128370000000000", "0xc203", 5000, 0, 0, 100, 64, 20, 0), ("0x11f2837000000000", "0xc203", 5000, 1, 0, 100, 64, 20, 0))])

LE = BIG[:2] + ("--steps", "3000000000", "--enum", "3000")
P("L04",
  [J("h_lzma_enc", *a, time=200, opts=LE, weight=w) for a, w in (
      (("0x3300000000000000", "0x1", "0x1000203", 64, 0), 1), (("0x3300000000000000", "0x661", "0x1000203", 64, 0), 1), (("0x2000000000000000", "0x1", "0x1000203", 64, 0), 1),
      (("0x1511700000000000", "0x661", "0x1000203", 64, 0), 2), (("0x1f1f1f4000000000", "0x000", "0x1000203", 8, 0), 1), (("0x4df1f1f430000000", "0x000", "0x1000203", 64, 3), 3),
      (("0x1f1f1f4f10000000", "0x660", "0x1000203", 20, 30), 3), (("0x5530000000000000", "0x061", "0x40203", 32, 0), 3), (("0x3444300000000000", "0x660", "0x10203", 64, 0), 2),
      (("0x3444300000000000", "0x000", "0x10203", 64, 0), 2), (("0x6633000000000000", "0x1", "0x64203", 100, 100), 2), (("0x5930000000000000", "0x660", "0x7d0404", 16, 2500), 2),
      (("0x4730000000000000", "0x064", "0x3e8203", 20, 0), 2), (("0x4730000000000000", "0x603", "0x3e8203", 20, 0), 2), (("0x4730000000000000", "0x602", "0x3e8203", 20, 0), 2),
      (("0x4733000000000000", "0x1", "0x3e8203", 20, 0), 9), (("0x4733000000000000", "0x600", "0x3e8203", 20, 0), 9), (("0x3933000000000000", "0x061", "0x40203", 32, 0), 9))],
  "pieces of data chosen by symbolic values (bytes, patterns, copies from 12 distances with 16 lengths, runs) around concrete noise and runs of up to some thousand bytes, with flushes anywhere between; LZMA2, LZMA with and without header, size and end marker; fast and normal mode, "
  "hash-chain and binary-tree match finders; lc/lp/pb, dictionaries of 1 byte to 64 KiB, nice lengths, preset dictionaries",
  "larger arbitrary data (the encoder's decisions depend on all of it; its states are then beyond enumeration); chunks close to 2 MiB; depth limits",
  thorough=[J("h_lzma_enc", *a, time=900, opts=LE) for a in (
      ("0x4537300000000000", "0x660", "0x40203", 8, 0), ("0x4878000000000000", "0x001", "0x40203", 8, 0), ("0x4878000000000000", "0x660", "0x40203", 8, 0),
      ("0x47a3000000000000", "0x000", "0x40203", 20, 0), ("0x3a33000000000000", "0x660", "0x40203", 20, 0), ("0x4833700000000000", "0x062", "0x40101", 40, 0), ("0x4738370000000000", "0x601", "0x10000004", 64, 0))])
P("L05",
  [J("h_range_enc", 1, 0, 0, weight=5), J("h_range_enc", 2, 0, 0, weight=5), J("h_range_enc", 3, 0, 0, weight=5), J("h_range_enc", 2, 1, 3, weight=2), J("h_range_enc", 1, 1, 1), J("h_range_enc", 3, 2, 0),
   J("h_range_enc", 1, 2, 0), J("h_range_dec", 0, 0, weight=3), J("h_range_dec", 1, 1), J("h_range_dec", 1, 2)],
  "one step (bit, direct bits, finish) from any state: any 33-bit low, any range of the invariant with probabilities 32..1024 in powers of two or any probability with eight ranges, one to three held-back bytes",
  "more than three held-back bytes (the loop's body is the same); other products of range and probability (nonlinear)",
  thorough=[J("h_range_enc", 2, 1, 5, time=900), J("h_range_dec", 1, 4, time=900)])
P("L06",
  [J("h_dict_size", 0), J("h_dict_size", 1)] + [J("h_dict_read", *a, reach=()) for a in ((0, 1), (0, 0), (1, 5), (1, 4))],
  "all dictionary sizes of 32 bits when writing, all properties bytes and lengths of properties when reading",
  "properties longer than five bytes")
P("F05",
  [J("h_bcj2", *a, reach=(), opts=BIG, weight=w) for a, w in (
      (("0x1256000000000000", 3, 1, 0, 0), 1), (("0x125a000000000000", 3, 1, 1, 0), 1), (("0x1251351000000000", 5, 7, 0, 0), 1), (("0x12aa3aa000000000", 5, 7, 0, 0), 2),
      (("0x94a6268000000000", 1, 1, 0, 0), 1), (("0xb125160000000000", 100000, 0, 0, 0), 1), (("0xb125160000000000", 262143, 0, 1, 0), 2), (("0x1256136000000000", 5, 3, 0, "0x301"), 1),
      (("0x1256135000000000", 5, 3, 0, "0x105"), 1), (("0x1253540000000000", 100, 3, 1, 0), 2), (("0x1254400000000000", 3, 1, 1, 0), 1), (("0x1254400000000000", 3, 1, 0, 0), 1),
      (("0x1212540000000000", 100, 5, 1, "0x202"), 2), (("0x1251500000000000", 5, 5, 0, "0x301"), 1), (("0x1251500000000000", 5, 5, 0, "0x302"), 1), (("0x1251500000000000", 5, 5, 0, "0x201"), 1),
      (("0x1251500000000000", 5, 5, 1, "0x001"), 1))]
  + [J("h_bcj2_any", *a, reach=(1,), opts=BIG) for a in (("0x1213400000000000", 4, 5, 0), ("0x1213400000000000", 5, 1, 3), ("0x1213400000000000", 5, 3, 3), ("0x2234c27c2c400000", 5, 1, 3), ("0x2222222222222222", 6, 7, 1))],
  "code of up to sixteen pieces (plain bytes, E8 / E9 / 0F 8x branches with any operand, converted or not; 256 KiB of filler around the buffer's end), any start position up to 2^32, read sizes 1..262143, sources that deliver in pieces; each of the four streams cut; arbitrary range-coder bytes",
  "more branches than listed in one stream",
  thorough=[J("h_bcj2", *a, reach=(), opts=BIG, time=900) for a in (("0x125a35aa00000000", 5, 3, 0, 0), ("0x12a54aa2a0000000", 7, 1, 1, 0), ("0x1253545400000000", 3, 3, 0, 0), ("0x1254513500000000", 100, 7, 1, 0))])

LEN = [128, 82, 54, 55, 26, 34, 40, 50]
# corrupted places whose exploration is expensive: with the recorded checksums kept, and/or one byte only
KEEP2 = {(0, 0), (0, 1), (0, 3), (0, 4), (0, 15), (0, 16), (0, 17), (0, 23), (1, 2), (1, 3), (1, 4), (1, 18), (1, 19), (1, 20), (1, 23), (1, 26), (1, 31), (1, 42),
         (1, 43), (4, 11), (4, 12), (4, 13), (4, 14)}
ONE = {(0, 36), (1, 5), (2, 6), (2, 7), (2, 15), (2, 16), (2, 23), (3, 12), (3, 13), (3, 14), (3, 17), (4, 1), (4, 5), (4, 16), (6, 17), (7, 2), (7, 6), (7, 18)}
KEEP1 = {(0, 18), (0, 19), (1, 6), (1, 21), (1, 22), (1, 24), (1, 25), (1, 27), (1, 28), (1, 44), (3, 15), (4, 2), (6, 18), (7, 3)}
LATER = {(4, 6), (4, 17)}


def corrupt(t, i):
    a = (t, i)
    if a in KEEP2:
        return [J("h_corrupt", t, i, 2, 1)]
    if a in ONE:
        return [J("h_corrupt", t, i, 1, 0, weight=2)]
    if a in KEEP1:
        return [J("h_corrupt", t, i, 1, 1, weight=3)]
    return [] if a in LATER else [J("h_corrupt", t, i, 2, 0)]


P("H07",
  [j for t, n in enumerate(LEN) for i in range(n) for j in corrupt(t, i)]
  + [J("h_cut", t, reach=(2,)) for t in range(8)] + [J("h_arbitrary", t, o, 4, reach=()) for t, o in ((0, 0), (0, 2), (1, 40), (3, 12), (7, 1))]
  + [J("h_corrupt_inner", 5, i, 1) for i in (2, 4, 8, 11, 12, 16, 20)],
  "eight archives covering every header structure: any two neighbouring header bytes arbitrary (one where stated in driver/props.py), recorded checksums arbitrary; cut after any byte; up to four arbitrary bytes at the end of a header; header up to 128 bytes; all entries then read",
  "more corrupted bytes at once; corrupted packed data (L02, F05, A02)",
  thorough=[J("h_corrupt", t, i, 2, 0, time=400) for t, n in enumerate(LEN) for i in range(n) if (t, i) in KEEP2 | ONE | KEEP1 | LATER]
  + [J("h_corrupt", t, i, 3, 1, time=300) for t, n in enumerate(LEN) for i in range(n)]
  + [J("h_corrupt_inner", 0, i, 1, time=300) for i in range(128)])
P("H08",
  [J("h_checked", t, w, reach=(1, 2)) for t in (0, 5) for w in range(6)] + [J("h_checked", t, 4, reach=(1, 2)) for t in (1, 2, 3, 4, 6, 7)]
  + [J("h_start_any", *a, reach=(1, 2)) for a in ((2, 1, 1), (2, 0, 0), (0, 0, 0))] + [J("h_nothing")],
  "eight archives; any signature, version, checksum; any one byte of the start header or the header; 32 arbitrary bytes followed by up to two",
  "two and more changed header bytes (a checksum decides them; collisions of a checksum cannot be excluded)",
  thorough=[J("h_start_any", *a, reach=(1, 2), time=1500, weight=9) for a in ((6, 1, 1), (4, 0, 1))])
P("H09",
  [J("h_recover", t, k) for t in (0, 1, 2, 4, 5, 6, 7) for k in (0, 4)][:-1] + [J("h_recover_lookalike", *a) for a in ((0, 4), (2, 4), (4, 4), (0, 2), (5, 3))]
  + [J("h_recover_any", n) for n in (1, 3, 6)],
  "seven archives with a start header of zeros, arbitrary packed data; four arbitrary bytes inside the end header; up to six arbitrary bytes in place of everything",
  "headers further than 1 MiB from the end (not searched by design); bytes that form a complete header of their own inside the header",
  thorough=[J("h_recover_lookalike", 2, 5, time=900), J("h_recover_any", 7, time=900, weight=3)])
P("H10",
  [J("h_encoded", *a, reach=r) for a, r in
   (((3, 1, 1, 0, 4, 0), (1, 2)), (("0x31", 2, 1, 0, 9, 3), (1, 2)), ((3, 1, 1, 2, 4, 0), (2,)), (("0x13", 2, 1, 3, 4, 1), (2,)), ((3, 1, 0, 1, 4, 1), (2,)),
    (("0x11", 2, 1, 0, 6, 5), (1, 2)), (("0x13", 2, 1, 0, 6, 1), (1, 2)), ((1, 1, 0, 0, 5, 2), (1,)), ((3, 1, 0, 0, 200, 0), (1,)))],
  "one entry with arbitrary times, attributes and checksum; header behind one or two coders (Copy, Delta); any recorded checksum; bytes missing; delivery sizes 1..all",
  "LZMA-compressed headers (decoder: L03), encrypted ones (A05)")
