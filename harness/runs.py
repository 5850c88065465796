"""What each check runs: harness files, entries with their parameters, required covers, bounds."""
Z3VER = "4.8.12"
LIMIT = {"quick": 600, "thorough": 780}
ASSUMPTIONS = [
    "rustc 1.99.1 debug build (overflow checks and debug assertions on) lowered to LLVM IR and optimised with opt -O1; x86-64",
    "hashing is replaced by a constant hash: hash tables are searched by equality only, iteration follows the table layout of that hash",
    "allocation never fails; freshly allocated and uninitialised memory reads as zero",
    "a panic is a path event: it ends the path, or returns to the harness's catch without running destructors",
]
import json, os
# findings: [{"property": id, "match": "entry: what", "what": text}]
KNOWN = {}
for _f in json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.json")))["findings"]:
    KNOWN.setdefault(_f["property"], []).append(_f)
NOT_APPLICABLE = {}
HOOK_COMMITS = ["688d95196c3a8cd7605ef5fb8b870fec47c25a7b", "a3541250273bccdc0af397ac2fa93fbbfa5013f5", "0770dd9d1325a25013fafbc53ef50ec5ed29b3a8"]
PROPS = {}
def r(entry, *params, cost=1, **kw):
    return dict(entry=entry, params=list(params), cost=cost, **kw)
def prop(pid, quick, covers, bounds, thorough=None, files=None, **kw):
    PROPS[pid] = dict(files=files or [pid + ".rs"], quick=quick, covers=covers, bounds=bounds, **kw)
    if thorough:
        PROPS[pid]["thorough"] = quick + thorough

prop("C23", [r("c23_charreach", k) for k in range(6)] + [r("c23_bitfield", k) for k in range(6)] + [r("c23_default")],
     ["updated", "default"], "none: all 2^256 sets, all 256 bytes c, all 256 witnesses d, each operation of both types")
prop("C24", [r("c24_charreach"), r("c24_bitfield"), r("c24_order_charreach"), r("c24_order_bitfield")],
     ["algebra", "ordered"], "none: all pairs (for the ordering: triples) of the 2^256 sets, all witnesses")
ITER = ["--no-merge", "--split-shifts"]  # loops over the members of a set: one path per member found
def windows(entry, pre, width, bgs, step=None, cost=1, flags=ITER):
    return [r(entry, *pre, 1, lo, min(width, 256 - lo), bg, flags=flags, cost=cost) for bg in bgs for lo in range(0, 256, step or width)]
def edges(entry, pre, width, bgs, cost=1, flags=ITER, at=(0, 61, 125, 189, 250, 62, 88, 94, 120)):
    return [r(entry, *pre, 1, lo, min(width, 256 - lo), bg, flags=flags, cost=cost) for bg in bgs for lo in at]
def pairs(entry, pre, at, how, cost=1, flags=ITER):
    return [r(entry, *pre, 2, a, b, h, flags=flags, cost=cost) for a, b in at for h in how]
BOXES = [(63, 126), (0, 189), (126, 252), (31, 223), (64, 96)]
BACK = "backgrounds: empty, full, the letters and digits, all but these, every fifth byte"

prop("C25", [r("c25_ends"), r("c25_next"), r("c25_count", 0, 0, 0, 0)] + [r("c25_count_step", c, c + 8) for c in range(0, 256, 8)]
     + windows("c25_count", (), 6, (1, 3), 40) + edges("c25_nth", (0,), 4, (0, 1, 3, 4), cost=20) + pairs("c25_nth", (0,), BOXES, (3,), cost=5)
     + [r("c25_nth_word", w, bg, 0, 4, cost=12) for w in range(4) for bg in (0, 2)],
     ["first", "no first", "last", "next", "no next", "count", "step", "nth", "no nth", "nth in word"],
     "find_first, find_last, find_next, count, none, any, all: all 2^256 sets and all arguments (count by induction: the empty set, and one more member for all sets and members). "
     "find_nth, every n: sets arbitrary on 4 consecutive bytes at the word edges and the letters, over four concrete backgrounds, and on two groups of 3 bytes; "
     "and, for the first four members of each 64-bit word, arbitrary contents of that word over two backgrounds (thorough: groups of 6 and 4, first six members)",
     thorough=windows("c25_nth", (0,), 6, (0, 1, 3, 4), 12, cost=40) + pairs("c25_nth", (0,), BOXES, (4,), cost=15) + [r("c25_nth_word", w, bg, k, k + 1, cost=40) for w in range(4) for bg in (0, 1, 2) for k in (4, 5)])
prop("C26", [r("c26_charreach"), r("c26_bitfield")], ["range", "reversed range"], "none: all 2^256 sets, all 65,536 (from, to), all witnesses")
prop("C27", [r("c27_char_range")] + [r("c27_bytes", n, 0) for n in range(6)] + [r("c27_bytes", n, 32) for n in (1, 4)] + [r("c27_bytes", 2, n) for n in (254, 255, 256, 1000)]
     + windows("c27_display", (), 6, (0,), 12, cost=2) + edges("c27_display", (), 3, (1, 4), cost=30, at=(0, 126, 253)) + pairs("c27_display", (), BOXES, (3,), cost=4),
     ["range", "reversed range", "bytes", "text"],
     "from_char, from_range, dot: all arguments and witnesses. from_bytes, set_bytes: all strings of 0 to 5 bytes, all with a fixed 32-byte prefix and 1 or 4 more, and 2 more after 254, 255, 256 or 1,000 fixed ones, added to all 2^256 sets. "
     "text: sets arbitrary on groups of 6 consecutive bytes (every other group) over the empty set, of 3 over the full set and over all but letters and digits, and on two groups of 3",
     thorough=[r("c27_bytes", 8, 0, cost=20), r("c27_bytes", 7, 32, cost=20)] + windows("c27_display", (), 8, (0,), 6, cost=10) + edges("c27_display", (), 4, (1, 4), cost=60, at=(30, 62, 124, 190)))
prop("C28", [r("c28_caseless")], ["caseless"], "none: all 2^256 sets and all witnesses")
prop("C29", [r("c29_relations")] + [r("c29_pair_of", g, x, flags=ITER, cost=8) for g in range(8) for x in range(3)]
     + [q for e in ("c29_alphabetic", "c29_bit5", "c29_pair") for q in windows(e, (), 6, (0, 1, 3), 6) + pairs(e, (), ((65, 97), (87, 119), (63, 95), (60, 124)), (6, 20), cost=6)] + [r(e, 0, 3, 0, cost=20) for e in ("c29_alphabetic", "c29_bit5", "c29_pair")],
     ["relations", "alphabetic", "not alphabetic", "bit 5", "not bit 5", "pair", "no pair"],
     "subset, overlap, ASCII, UTF-8 start: all (pairs of) 2^256 sets. caseless pair: all sets of one or two bytes, with and without one neighbouring or twin byte more. "
     "alphabetic, bit-5 insensitive and caseless pair: sets arbitrary on every group of 6 consecutive bytes over the empty set, the full set and the letters and digits, and on two groups of 6 (over the full set 4) a case apart; and all sets of up to 3 bytes",
     thorough=[q for e in ("c29_alphabetic", "c29_bit5", "c29_pair") for q in windows(e, (), 9, (0, 1, 3, 4), 4, cost=8)])
prop("C30", edges("c30_masks", (), 5, (0, 3), cost=4) + edges("c30_masks", (), 3, (1, 4), cost=4) + windows("c30_masks", (), 5, (0,), 10, cost=3) + pairs("c30_masks", (), BOXES, (3, 18), cost=10) + [r("c30_masks", 0, 2, 0, cost=30)],
     ["masks"], "sets arbitrary on 5 consecutive bytes (every other group, and the word edges) over the empty set and over the letters and digits, on 3 over the full set and over all but the letters and digits, and on two groups of 3 (over the full set 2); all sets of one or two bytes; all witnesses",
     thorough=windows("c30_masks", (), 8, (0,), 6, cost=10) + windows("c30_masks", (), 5, (1, 3, 4), 8, cost=20))
prop("C31", [r("c31_short")] + windows("c31_fill", (33,), 6, (0, 1, 4), 6) + pairs("c31_fill", (32,), BOXES, (3, 19), cost=2) + edges("c31_fill", (40,), 5, (3,)) + [r("c31_fill", 33, 0, 2, 0, cost=18)],
     ["filled", "short"], "sets arbitrary on every group of 6 consecutive bytes over the empty set, the full set and all but the letters and digits, and on two groups of 3; all sets of one or two bytes; all previous contents of buffers of 32, 33 and 40 bytes; every shorter buffer length",
     thorough=windows("c31_fill", (36,), 9, (0, 1, 3, 4), 4, cost=6))
prop("C32", [r("c32_case")], ["upper case letter", "lower case letter", "not a letter"], "none: all 256 bytes")
prop("C33", [r("c33_literal", 0, n, 0, cost=1 + n * n) for n in range(9)] + [r("c33_literal", p, 4, m, cost=5) for p in (1, 29, 61, 64) for m in (0, 1, 2, 5)] + [r("c33_literal", p, 2, m, cost=5) for p in (126, 254, 256, 300) for m in (0, 5)],
     ["mixed", "not mixed"], "all literals of 0 to 8 characters with all caseless marks, those of 1 to 64 fixed characters (four mark patterns) followed by 4 arbitrary ones, and of 126 to 300 followed by 2",
     thorough=[r("c33_literal", 0, 12, 0, cost=200), r("c33_literal", 0, 16, 0, cost=300), r("c33_literal", 30, 8, 5, cost=100), r("c33_literal", 60, 8, 0, cost=100)])
prop("C34", [r("c34_pair", a, b, 0, cost=1 + a * b) for a in range(5) for b in range(5)] + [r("c34_pair", a, b, 62, cost=10) for a in (2, 3) for b in (2, 3)] + [r("c34_pair", 1, b, p, cost=5) for p in (127, 255) for b in (1, 2)]
     + [r("c34_transitive", a, b, c, 0, cost=1 + a * b * c) for a in range(4) for b in range(4) for c in range(4)] + [r("c34_transitive", 2, 2, 2, 63, cost=10)],
     ["equal", "different", "triple"], "all pairs of literals of up to 4 characters and all triples of up to 3, and pairs and triples that continue a 62- or 63-character prefix by 2 or 3 characters, or one of 127 or 255 by 1 or 2",
     thorough=[r("c34_pair", a, b, 0, cost=60) for a in (5, 6, 8) for b in (5, 6, 8)] + [r("c34_transitive", 4, 4, 4, 0, cost=60), r("c34_transitive", 5, 5, 5, 0, cost=100)])
prop("C35", [r("c35_depth")], ["both widths", "finite", "two depths", "too large"], "none: all pairs of 64-bit numbers (32-bit ones for the narrow conversion)")
prop("C36", [r("c36_align", t, cost=2) for t in range(8)], ["aligned", "not representable"], "none: every value of u8 to u128 and usize, every non-negative i32 and i64, every power of two up to 128",
     outside="negative values of signed types")
prop("C37", [q for e in ("c37_text", "c37_dot") for q in windows(e, (), 5, (0, 5), 5, cost=2) + windows(e, (), 4, (1, 4), 12, cost=2) + pairs(e, (), ((9, 30), (11, 32)), (3 + 16 * 6, 3 + 16 * 7), cost=8) + edges(e, (), 5, (8,), at=(47, 53), cost=2) + edges(e, (), 5, (7,), at=(94, 46), cost=2) + edges(e, (), 3, (2,), cost=8, at=(60, 125, 250)) + pairs(e, (), ((8, 46), (0, 253), (63, 94), (92, 32)), (2, 18), cost=8)],
     ["named", "single", "list", "negated list"], "both output forms; sets arbitrary on every group of 5 consecutive bytes over the empty set and over the word characters, on groups around the members of the white space, the digits and the word characters over combinations of these, on every third group of 4 over the full set and over all but the letters and digits, on groups of 3 over every fifth byte, and on two groups of 2 over the empty and the full set; no truncation (length limit 300)",
     outside="descriptions cut short by a smaller length limit",
     thorough=[q for e in ("c37_text", "c37_dot") for q in windows(e, (), 6, (0, 1, 3, 4), 5, cost=10) + windows(e, (), 4, (2,), 30, cost=20)])

# ---- the compiler: texts are (piece, arbitrary bytes, piece, bytes out of ( ) | a, piece), see harness/props/expr.rs
ASCII = 100  # added to the number of arbitrary bytes: ASCII only
def opened(n): return 1000 + n
def closed(n): return 2000 + n
VERBS = [(1, 2, 0, 1, 0), (4, 4, 5, 0, 0), (4, ASCII + 5, 5, 1, 0), (19, 2, 5, 0, 0), (6, 2, 5, 0, 0), (24, 1, 5, 0, 0), (32, ASCII + 6, 33, 0, 0), (34, ASCII + 7, 5, 0, 0), (35, 1, 22, 2, 0), (36, 2, 5, 0, 0), (28, 0, 0, 2, 0), (29, 1, 0, 1, 0)] \
    + [(p, 0, 5, 1, 0) for p in range(8, 19)]
BOXED = [(23, 1, 0, 3, 22), (0, 2, 25, 2, 0), (20, 0, 0, 4, 21), (31, 1, 0, 2, 31)]
NONASCII = [(4, 0, 9070, 0, 5), (0, 0, 9070, 0, 0), (22, 0, 9040, 0, 37)]
LONG = [(opened(280), 1, closed(279), 0, 0), (5270, 1, 0, 1, 0), (6270, 1, 0, 1, 0), (opened(130), 0, closed(128), 2, 31), (3300, 1, 0, 0, 4280), (4270, 1, opened(3), 1, closed(3)), (3100, ASCII + 1, opened(30), 2, closed(30))]
def texts(entry, after, plain=5, ascii_=6, structure=7, extra=(), skip_verbs=False, cost=1):
    """Runs of `entry` over the texts; `after(noverb)` gives the params that follow the text."""
    out = [r(entry, 0, n, 0, 0, 0, *after(0), cost=cost * 3 ** n / 20) for n in range(plain + 1)]
    out += [r(entry, 0, ASCII + n, 0, 0, 0, *after(0), cost=cost * 2 ** n) for n in range(plain + 1, ascii_ + 1)]
    out += [r(entry, 0, 0, 0, n, 0, *after(1), cost=cost * 3 ** n / 100) for n in range(1, structure + 1)]
    if not skip_verbs:
        out += [r(entry, *t, *after(0), cost=cost * (100 if t[1] == ASCII + 5 else 5)) for t in VERBS]
    out += [r(entry, *t, *after(1 if t[0] != 28 else 0), cost=cost * 5) for t in BOXED]
    out += [r(entry, *t, *after(1), cost=cost * 3) for t in LONG]
    out += [r(entry, *t, *after(0 if t[0] == 4 else 1), cost=cost * 3) for t in NONASCII]
    return out + list(extra)
TEXTS = ("texts: every UTF-8 string of up to {p} bytes, every ASCII string of up to {a}, every string of up to {s} characters out of ( ) | a, texts of up to 600 bytes (280 nested groups, 4,270 branches of a group among them) "
         "with one or two arbitrary bytes or some structure characters in the middle or at the end, and texts starting with each control verb, with any verb of up to 5 ASCII characters (thorough: 6 to 10), and with parts of verbs completed by 2 to 7 arbitrary characters, and texts and verbs of 40 to 70 letters with one non-ASCII character anywhere")
TEXTS = TEXTS.replace("280 nested groups, 4,270 branches of a group among them", "280 nested groups, 270 groups in a row, 280 branches")

prop("C01", texts("c01_total", lambda v: (0, 0, 0, 1)) + texts("c01_total", lambda v: (1, 5, 0, 0), 3, 4, 5) + [r("c01_total", 0, 1, 0, n, 0, 65535, m, 0, 0, cost=5) for m in range(6) for n in (0, 1)]
     + [r("c01_total", 0, 1, 0, 1, 0, 8, 1, 2, 0, cost=5), r("c01_total", 4, ASCII + 3, 5, 0, 0, 0, 1, 2, 0, cost=5), r("c01_total", 0, 0, 0, 2, 0, 0, 2, 3, 0, cost=5), r("c01_total", 31, 0, 0, 1, 0, 1, 0, 2, 0, cost=5)],
     ["database", "error"], TEXTS.format(p=5, a=6, s=7) + "; with no flags and (shorter ones) with CASELESS in vectored mode; all flags and modes for texts of up to 2 characters; lists of two and three with match IDs below 10",
     files=["expr.rs", "C01.rs"], outside="exhaustion of the stack by thousands of nested groups, or of memory",
     thorough=[r("c01_total", 4, ASCII + 6, 5, 1, 0, 0, 0, 0, 0, cost=90), r("c01_total", 0, 6, 0, 0, 0, 0, 0, 0, 0, cost=300), r("c01_total", 0, ASCII + 7, 0, 0, 0, 0, 0, 0, 0, cost=100), r("c01_total", 0, 0, 0, 9, 0, 0, 0, 0, 0, cost=200), r("c01_total", 0, 4, 0, 0, 0, 1, 0, 0, 0, cost=50),
               r("c01_total", 0, 2, 0, 1, 0, 65535, 1, 0, 0, cost=100), r("c01_total", 0, ASCII + 2, 0, 1, 0, 8, 1, 3, 0, cost=100), r("c01_total", 4, ASCII + 10, 5, 2, 0, 0, 0, 0, 0, cost=100)])
prop("C02", texts("c02_language", lambda v: (0, v)) + [r("c02_language", 0, 1, 0, n, 0, 65535, 0, cost=8) for n in (0, 1)] + [r("c02_language", 0, 0, 0, n, 0, 65535, 1, cost=4) for n in (3, 4)] + [r("c02_language", *t, 65535, 0, cost=8) for t in ((1, 0, 0, 2, 0), (4, ASCII + 4, 5, 0, 0))]
     + [r("c02_language", 0, 4, 0, 0, 0, 1, 0, cost=8)],
     ["accepted", "rejected"], TEXTS.format(p=5, a=6, s=7) + "; all flags for shorter ones",
     files=["expr.rs", "C02.rs"], outside="the length limit, which C05 decides",
     thorough=[r("c02_language", 4, ASCII + 6, 5, 1, 0, 0, 0, cost=140), r("c02_language", 0, 6, 0, 0, 0, 0, 0, cost=300), r("c02_language", 0, ASCII + 8, 0, 0, 0, 0, 0, cost=300), r("c02_language", 0, 0, 0, 9, 0, 0, 1, cost=200), r("c02_language", 0, 3, 0, 0, 0, 65535, 0, cost=60), r("c02_language", 4, ASCII + 10, 5, 2, 0, 0, 0, cost=200)])
prop("C03", texts("c03_where", lambda v: (0, v)) + [r("c03_where", 0, 2, 0, 0, 0, 65535, 0, cost=8), r("c03_where", 0, 0, 0, 4, 0, 65535, 1, cost=4), r("c03_where", 0, 3, 0, 0, 0, 1, 0, cost=8)],
     ["accepted", "unknown verb", "unsupported verb", "unmatched", "non-ASCII", "unclosed"], TEXTS.format(p=5, a=6, s=7) + "; all flags for shorter ones",
     files=["expr.rs", "C03.rs"],
     thorough=[r("c03_where", 4, ASCII + 6, 5, 1, 0, 0, 0, cost=140), r("c03_where", 0, 6, 0, 0, 0, 0, 0, cost=300), r("c03_where", 0, ASCII + 8, 0, 0, 0, 0, 0, cost=300), r("c03_where", 0, 0, 0, 9, 0, 0, 1, cost=200), r("c03_where", 4, ASCII + 10, 5, 2, 0, 0, 0, cost=200), r("c03_where", 23, 3, 0, 3, 25, 0, 1, cost=60)])
prop("C04", [r("c04_list", m, f, i, 0, *([1] * m)) for m in range(4) for f in range(4) for i in range(4) if m == 0 or f != m or i != m]
     + [r("c04_list", 2, 2, 2, 0, a, b, cost=2) for a in (0, 1, 2, 102, 103) for b in (0, 1, 2, 103)] + [r("c04_list", 2, 2, 2, 65534, a, b, cost=3) for a in (1, 101, 102) for b in (1, 101, 102)]
     + [r("c04_list", 3, 3, 3, 65534, 101, 101, 101, cost=5), r("c04_list", 3, 3, 3, 65534, 1, 101, 1, cost=20), r("c04_list", 3, 3, 3, 0, 102, 102, 102, cost=8), r("c04_list", 3, 3, 3, 65534, 0, 0, 101), r("c04_list", 2, 2, 2, 65535, 101, 101, cost=10), r("c04_list", 4, 4, 4, 65534, 101, 101, 101, 101, cost=30)]
     + [r("c04_long", *p, cost=10) for p in ((300, 0, 2), (300, 65535, 1), (11, 1, 3), (40, 0, 0))] + [r("c04_single", *t, 0) for t in ((0, 4, 0, 0, 0), (0, 0, 0, 6, 0), (4, 4, 5, 0, 0), (23, 1, 0, 3, 22))] + [r("c04_single", 0, 1, 0, 0, 0, 65535, cost=5), r("c04_single", 0, 2, 0, 0, 0, 1)],
     ["lists", "compiled", "first", "later", "same error", "same database", "long list compiled", "long list refused"], "lists of up to 4 expressions of up to 3 bytes each (ASCII, or out of ( ) | a), match IDs below 10, QUIET, SOM_LEFTMOST and SINGLEMATCH arbitrary (all flags for the shortest); lists of 11 to 300 whose expressions but one (up to 3 characters, at one of 8 positions, also with any flags) are fixed; every mismatch of the list lengths up to 3; one expression against a list of one for texts of up to 6 bytes",
     files=["expr.rs", "C04.rs"],
     thorough=[r("c04_list", 2, 2, 2, 65535, 1, 1, cost=60), r("c04_list", 3, 3, 3, 65534, 1, 1, 1, cost=60), r("c04_list", 3, 3, 3, 65534, 102, 102, 102, cost=100), r("c04_list", 2, 2, 2, 0, 3, 3, cost=60), r("c04_list", 4, 4, 4, 65534, 101, 101, 1, 101, cost=100)])
prop("C05", [r("c05_compile", m, *ls) for m, ls in ((1, (0,)), (1, (7,)), (2, (1, 2)), (2, (2, 1)), (3, (5, 0, 128)), (3, (1, 1, 1)), (4, (1, 5, 2, 3)), (4, (0, 0, 0, 0)), (4, (9, 8, 8, 10)), (1, (1006,)), (2, (3, 1007)), (3, (1, 1005, 5)), (2, (1002, 4)))] + [r("c05_default", n, a, cost=2) for n in (15999, 16000, 16001, 20000) for a in (0, 1)] + [r("c05_default", 2, 0)] + [r("c05_reports", n) for n in (1, 2, 5, 9)],
     ["within", "too many", "too long", "too many reports", "non-ASCII within the limit", "longer than the default", "not longer than the default", "report refused", "report accepted"],
     "all limits (64-bit) against lists of 1 to 4 expressions of fixed lengths up to 128, and against up to 9 different reports; the default length limit against texts of 2, 15,999 to 16,001 and 20,000 bytes",
     files=["expr.rs", "C05.rs"], outside="8,000,000 expressions and 32,000,000 reports are not compiled: the defaults are compared as numbers", thorough=[r("c05_reports", 20)])
prop("C06", texts("c06_tree", lambda v: (0, v), 5, 6, 8) + texts("c06_tree", lambda v: (1, v), 3, 5, 5, skip_verbs=True),
     ["rejected", "alternation", "no alternation", "group"], TEXTS.format(p=5, a=6, s=8) + "; shorter ones also caselessly",
     files=["expr.rs", "tree.rs", "C06.rs"],
     thorough=[r("c06_tree", 0, ASCII + 7, 0, 0, 0, 0, 0, cost=90), r("c06_tree", 4, ASCII + 6, 5, 1, 0, 0, 0, cost=40), r("c06_tree", 0, 6, 0, 0, 0, 0, 0, cost=100), r("c06_tree", 0, ASCII + 8, 0, 0, 0, 0, 0, cost=100), r("c06_tree", 0, 0, 0, 9, 0, 0, 1, cost=100), r("c06_tree", 23, 2, 0, 4, 22, 1, 1, cost=60)])
prop("C07", [r("c07_verb", 0, n, 0, 0, 0, cost=3 ** n / 50) for n in range(6)] + [r("c07_verb", *t, cost=6) for t in VERBS] + [r("c07_verb", 0, ASCII + 6, 0, 0, 0), r("c07_verb", 4, ASCII + 8, 5, 0, 0, cost=10), r("c07_verb", 4, ASCII + 10, 5, 0, 0, cost=20), r("c07_verb", 32, ASCII + 10, 33, 0, 0, cost=15), r("c07_verb", 8, ASCII + 3, 5, 0, 0), r("c07_verb", 7, 2, 5, 2, 0, cost=2), r("c07_verb", 26, ASCII + 8, 5, 0, 0, cost=6), r("c07_verb", 34, ASCII + 9, 5, 0, 0, cost=8)],
     ["no verb", "UCP", "UTF", "already on", "unsupported", "unknown"], "every UTF-8 text of up to 5 bytes, every ASCII text of up to 6, every verb of up to 10 ASCII characters and of up to 4 arbitrary ones, each listed verb, and parts of them completed by 2 to 10 arbitrary characters; every mode",
     files=["expr.rs", "C07.rs"], outside="verbs of more than 20 characters",
     thorough=[r("c07_verb", 4, ASCII + 13, 5, 0, 0, cost=150), r("c07_verb", 4, ASCII + 16, 5, 0, 0, cost=300), r("c07_verb", 4, 6, 5, 0, 0, cost=80), r("c07_verb", 0, 6, 0, 0, 0, cost=50)])
prop("C08", [r("c08_mode")] + [r("c08_expression", *t, cost=4) for t in ((0, 0, 0, 0, 0), (30, 0, 0, 0, 0), (0, 3, 0, 0, 0), (1, 0, 0, 3, 0), (2, 1, 0, 0, 0), (3, 0, 0, 2, 0), (4, 4, 5, 0, 0), (28, 0, 0, 1, 0), (0, ASCII + 6, 0, 0, 0), (22, 0, 0, 2, 23))],
     ["mode", "utf8", "not utf8", "rejected"], "all flags, indices and match IDs; texts of up to 3 arbitrary bytes, 6 ASCII characters, any verb of up to 4 characters, and (*UTF8), (*UTF), (*UCP) followed by up to 3 characters",
     files=["expr.rs", "C08.rs"], outside="DOTALL, MULTILINE, UCP and UTF8 have no effect on parsing yet: only the settings themselves are compared",
     thorough=[r("c08_expression", 0, 4, 0, 0, 0, cost=20), r("c08_expression", 4, ASCII + 6, 5, 1, 0, cost=20)])
prop("C09", [r("c09_literal")], ["caseless", "case-sensitive", "refused"], "none: every character, both modes, every byte as witness", files=["C09.rs"])
prop("C10", texts("c10_shortcut", lambda v: (0, v, 3), 4, 6, 7) + texts("c10_shortcut", lambda v: (9, v, 3), 3, 4, 5) + [r("c10_shortcut", 0, 2, 0, n, 0, f, 0, c, cost=3) for c in (0, 1, 2) for n in (0, 1) for f in (0, 1)]
     + [r("c10_shortcut", 0, ASCII + 2, 0, 0, 0, 65535, 0, 3, cost=8), r("c10_shortcut", 0, 0, 0, 3, 0, 65535, 1, 3, cost=4)] + [r("c10_shortcut", 3000 + n, ASCII + 2, 0, 0, 3003, 1, 1, 3, cost=2) for n in (64, 65, 66, 67, 120, 260)],
     ["rejected", "literal", "not a literal", "caseless", "long"], TEXTS.format(p=4, a=6, s=7) + "; shorter ones also with CASELESS and SINGLEMATCH; all flags but SOM_LEFTMOST for up to 2 characters; all configurations of the shortcut; every match ID; literals of 69 to 72 characters around the largest buffer",
     files=["lits.rs", "expr.rs", "rm.rs", "C10.rs"], outside="what the literal matcher itself does with the literal (it is not implemented): the literal is read back from the small-write trie",
     thorough=[r("c10_shortcut", 4, ASCII + 6, 5, 1, 0, f, 0, 3, cost=160) for f in (0, 9)] + [r("c10_shortcut", 0, 5, 0, 0, 0, 0, 0, 3, cost=30), r("c10_shortcut", 0, ASCII + 5, 0, 0, 0, 1, 0, 3, cost=40), r("c10_shortcut", 0, ASCII + 3, 0, 0, 0, 65535, 0, 3, cost=50), r("c10_shortcut", 0, 0, 0, 9, 0, 1, 1, 3, cost=60), r("c10_shortcut", 0, ASCII + 7, 0, 0, 0, 0, 0, 3, cost=60)])
prop("C11", [r("c11_summary", 1, h, s, n, cost=2) for h in (2, 3) for s in (0, 1) for n in (1, 2, 3)] + [r("c11_summary", 2, 9, 1, a, b, cost=12) for a, b in ((2, 3), (3, 3), (3, 1))] + [r("c11_summary", 2, 9, 1, 80, 71, cost=13), r("c11_summary", 2, 9, 1, 300, 256, cost=13), r("c11_summary", 2, 3, 1, 2, 2, cost=31), r("c11_summary", 2, 3, 0, 2, 2), r("c11_summary", 3, 9, 1, 2, 3, 1, cost=60)],
     ["registered", "refused", "declined"], "up to two literals of up to 2 arbitrary characters with arbitrary caseless marks, and up to three of fixed letters (up to 300), caseless or not as one; match IDs below 10; start of match and SINGLEMATCH (not both) arbitrary",
     files=["lits.rs", "expr.rs", "rm.rs", "C11.rs"], outside="start of match together with SINGLEMATCH, which is refused earlier; the report limit",
     thorough=[r("c11_summary", 3, 2, 1, 1, 2, 1, cost=300), r("c11_summary", 2, 3, 1, 3, 2, cost=200), r("c11_summary", 3, 9, 1, 3, 1, 2, cost=60)])
prop("C12", [r("c12_trie", *p, cost=c) for p, c in (((1, 3, 0, 3), 1), ((1, 0, 0, 0), 1), ((1, 1, 0, 4), 1), ((2, 0, 0, 2, 2), 1), ((2, 0, 0, 3, 3), 3), ((2, 1, 0, 2, 3), 3), ((2, 3, 0, 2, 3), 5), ((2, 2, 0, 2, 2), 18), ((3, 2, 0, 2, 2, 1), 22), ((3, 0, 0, 2, 2, 2), 23), ((3, 4, 0, 1, 2, 2), 37), ((2, 2, 66, 4, 3), 29), ((3, 0, 20, 1, 1, 2), 20), ((3, 0, 0, 0, 1, 2), 5))] + [r("c12_wide", *p, cost=2) for p in ((20, 1), (200, 1), (255, 2), (256, 1))],
     ["both tries", "own node", "shared node"], "up to three literals of up to 3 arbitrary characters (two of up to 4 after 66 fixed ones), with the caseless marks set for all, for none, for the letters, for all or none, or one by one; a literal of one or two arbitrary characters after up to 256 one-character ones; all report numbers",
     files=["lits.rs", "expr.rs", "C12.rs"], samples=8,
     thorough=[r("c12_trie", *p, cost=100) for p in ((4, 0, 0, 1, 1, 1, 1), (4, 2, 0, 1, 2, 1, 0), (3, 2, 20, 1, 1, 2), (3, 0, 0, 3, 3, 2), (2, 3, 0, 3, 3))])
prop("C13", [r("c13_limits", len(ls), *ls) for ls in ((), (1,), (0,), (1, 2), (2, 2, 2), (3, 1, 2), (1, 1, 1, 1), (70, 71, 69))] + [r("c13_limits", 256, n) for n in (9, 127, 254, 255, 256)] + [r("c13_nodes", *p, cost=2) for p in ((7999, 0, 1, 1), (7998, 0, 1, 2), (7997, 0, 2, 2), (8000, 0, 1, 1), (7998, 1, 2, 1), (3, 1, 2, 3), (9000, 1, 1, 1))] + [r("c13_expression", cost=5)],
     ["too many literals", "stored", "not stored", "too many nodes", "nodes within the limit", "expression disables", "expression kept"],
     "all limits and pattern counts with up to four literals of fixed lengths up to 71, and 256 short ones with chosen limits; a trie of about 8,000 nodes grown by two literals of up to 2 arbitrary characters; graphs with any edges between the special vertices and at most one report of any minimum length",
     files=["lits.rs", "expr.rs", "C13.rs"], outside="keeping an expression: the builder panics there (unimplemented!), nothing calls it",
     thorough=[r("c13_nodes", 7996, 1, 3, 3, cost=40), r("c13_nodes", 7996, 0, 4, 2, cost=40), r("c13_limits", 5, 2, 1, 3, 2, 1)])
prop("C14", [r("c14_clash", n, 0) for n in (1, 2, 3, 4)] + [r("c14_clash", n, k, cost=n * n / 2) for n in (2, 3, 4) for k in (1, 2)] + [r("c14_clash", 2, 3, 300, cost=4), r("c14_text", 0, 3), r("c14_text", 9, 3), r("c14_text", 4294967292, 3)],
     ["registered", "clash", "first did", "first did not"], "up to four registrations: without a clash for all match IDs, with clashes for IDs below 10 and out of four, large ones among them; two more after 300 of fixed IDs, these and others; indices below 10. the text: IDs and indices out of three small, middle or very large numbers",
     thorough=[r("c14_clash", 5, 0, cost=5), r("c14_clash", 5, 1, cost=80), r("c14_text", 98, 4, cost=2)])
prop("C15", [r("c15_ids", n, 99) for n in range(1, 6)] + [r("c15_ids", 4, k) for k in (0, 1, 2, 3)] + [r("c15_ids", 6, 99, cost=5), r("c15_ids", 2, 99, 300, cost=5), r("c15_ids", 2, 258, 300), r("c15_ids", 2, 310, 270)], ["new", "again", "refused"], "up to 6 requests of arbitrary reports (all 64-bit minimum lengths) with any limit, and 2 after 300 fixed ones", thorough=[r("c15_ids", 7, 99, cost=40)])
prop("C16", [r("c16_keys", n, 0, cost=n * n) for n in range(1, 5)] + [r("c16_keys", 2, 14, cost=4), r("c16_keys", 1, 28, cost=2), r("c16_keys", 2, 11, cost=4), r("c16_keys", 1, 150, cost=9)], ["new", "again"], "up to 4 requests of arbitrary indices, up to 2 after 11 to 28 fixed ones, one after 150", thorough=[r("c16_keys", 5, 0, cost=40), r("c16_keys", 3, 14, cost=60)])
prop("C17", texts("c17_graph", lambda v: (0, v), 4, 6, 6) + texts("c17_graph", lambda v: (1, v), 3, 4, 5, skip_verbs=True) + [r("c17_graph", 0, ASCII + 3, 0, 0, 0, 65535, 0, cost=3), r("c17_graph", 0, 0, 0, 4, 0, 65535, 1, cost=3)],
     ["rejected", "literals", "no literals"], TEXTS.format(p=4, a=6, s=6) + "; shorter ones also caselessly, and with all flags for up to 4 characters; every index and match ID", files=["expr.rs", "graph.rs", "C17.rs"],
     thorough=[r("c17_graph", 4, ASCII + 6, 5, 1, 0, 0, 0, cost=90), r("c17_graph", 0, 5, 0, 0, 0, 0, 0, cost=60), r("c17_graph", 0, ASCII + 8, 0, 0, 0, 0, 0, cost=60), r("c17_graph", 0, 0, 0, 8, 0, 0, 1, cost=60)])
prop("C18", [r("c18_wiring", 1, 0, 9), r("c18_wiring", 1, 1, 9, 9), r("c18_wiring", 1, 2, 9, 9, 9, cost=20), r("c18_wiring", 2, 2, 0, 1, 1, 4, cost=6), r("c18_wiring", 2, 2, 9, 1, 9, 2, cost=22), r("c18_wiring", 1, 3, 0, 2, 3, 6, cost=2), r("c18_wiring", 2, 2, 4, 4, 3, 5, cost=6), r("c18_wiring", 2, 1, 0, 1, 9, cost=6), r("c18_wiring", 3, 1, 0, 1, 4, 2, cost=6), r("c18_wiring", 1, 3, 4, 2, 3, 9, cost=10)],
     ["connected", "nothing allowed", "accept replaced"], "one source and up to two targets of any kind, and chosen combinations of up to 3 sources and 3 targets; all flags of sources and targets and all assert flags",
     files=["expr.rs", "C18.rs"], outside="lists of targets that name plain accept more than once, and an empty position as source, which the code excludes",
     thorough=[r("c18_wiring", 2, 2, 9, 9, 4, 2, cost=100), r("c18_wiring", 1, 3, 9, 9, 2, 9, cost=150), r("c18_wiring", 2, 2, 9, 1, 9, 9, cost=200)])
prop("C19", [r("c19_new"), r("c19_queries", 1, 255, 1, 0, 0, cost=7), r("c19_queries", 2, 3840, 2, 0, 1, cost=17), r("c19_queries", 0, 15, 2, 1, 0, cost=15), r("c19_queries", 2, 0xf0f, 1, 0, 1, cost=10), r("c19_queries", 3, 0x3f30, 1, 0, 0, cost=20), r("c19_queries", 2, 0xcc3, 0, 1, 0, cost=2), r("c19_queries", 0, 255, 0, 0, 0)],
     ["new", "vacuous", "not vacuous"], "graphs of the four special and up to 3 more vertices, with up to 8 arbitrary edges into the accepts (also doubled), and up to 2 arbitrary reports per vertex", files=["graph.rs", "C19.rs"],
     thorough=[r("c19_queries", 2, 0xfff, 1, 0, 0, cost=300), r("c19_queries", 3, 0x3fc0, 1, 1, 1, cost=100)])
prop("C20", [r("c20_mode", *t, 0, cost=2) for t in ((0, 0, 0, 0, 0), (0, 3, 0, 0, 0), (0, 0, 0, 5, 0), (1, 0, 0, 2, 0), (22, 0, 0, 1, 0))] + [r("c20_mode", 0, 0, 0, n, 0, 65535, cost=2) for n in (0, 1, 2)] + [r("c20_mode", 0, 2, 0, 0, 0, 1)],
     ["block", "streaming", "vectored", "rejected"], "every mode with texts of up to 3 bytes or 5 structure characters, and with all flags for up to 2", files=["expr.rs", "C20.rs"], thorough=[r("c20_mode", 0, 4, 0, 0, 0, 0, cost=5)])
prop("C21", [r("c21_engine")], ["pure literal", "full"], "none: all resources and modes")
prop("C22", [r("c22_scan", n, k) for n, k in ((0, 0), (0, 8), (1, 1), (8, 8), (64, 64), (300, 300))] + [r("c22_compiled", *t) for t in ((0, 3, 0, 0, 0, 0), (0, 0, 0, 5, 0, 1), (0, 0, 0, 1, 0, 65535), (22, 0, 0, 2, 0, 0))],
     ["scanned", "compiled and scanned"], "every engine and mode with data and scratch state of up to 300 arbitrary bytes, the null state among them; and the databases of texts of up to 3 bytes or 5 structure characters with 8 bytes of data", files=["expr.rs", "C22.rs"],
     thorough=[r("c22_compiled", 0, 4, 0, 0, 0, 0, cost=4)])
prop("C38", texts("c38_walk", lambda v: (0, v), 5, 6, 8) + [q for k in (1, 2, 3, 5) for q in texts("c38_walk", lambda v: (k, v), 3, 4, 6, skip_verbs=True)] + [r("c38_walk", 22, 0, 0, 2, 23, k, 1) for k in range(1, 40)],
     ["walked", "failed"], TEXTS.format(p=5, a=6, s=8) + "; a failing hook: the 1st, 2nd, 3rd and 5th call for shorter texts, and each of the first 39 calls for one text with two arbitrary structure characters", files=["expr.rs", "tree.rs", "C38.rs"],
     thorough=[r("c38_walk", 0, 0, 0, 9, 0, k, 1, cost=100) for k in (0, 4, 7)] + [r("c38_walk", 0, 6, 0, 0, 0, 0, 0, cost=60)])
