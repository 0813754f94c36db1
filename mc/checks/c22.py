"""C22: names data of any shape are decoded as the format defines.

Families of synthetic names data, written by mc.icupkg and loaded by the code
under test from a data file; every code point around the content is asked for
every name choice, the listing is compared as a whole and every name looked up
in reverse.
  A  line lengths: all triples of one- and two-nibble lengths at both nibble
     parities and at the end of the group
  B  tokens: all lines of up to 3 symbols (literal, one-byte token, two-byte
     token, empty token) x token table sizes x name/alias fields
  C  algorithmic ranges: prefix ranges (4/5/6 digits) and factorized ranges (all
     factor lists of length 1..3 with factors 1..3, 4 with 1..3, 5 and 8 with
     1..2; thorough: up to 8)
  D  layouts: ranges and named lines in four adjacent groups.
"""
import itertools
import os
import sys

from .. import common, icupkg
from ..common import cpu_limit


def install(root, names):
    """Make the code under test load this names data: returns CharNames."""
    blob, _ = icupkg.package([("unames.icu", names.blob)])
    with open(os.path.join(root, "UnicodeData", "Data", "icudata.dat"), "wb") as f:
        f.write(blob)
    common.forget()
    return common.load("CharNames").CharNames


REPLAY = '''from mc.checks import c22
import tempfile
names = c22.build({spec!r})
CN = c22.install(common.scratch(), names)
got = {call}
print(repr(got), repr({want!r}))
bad = got != {want!r}'''


# every real table has an algorithmic range
FAR = [("prefix", 0x20000, 0x20002, 5, "FAR-")]


def build(spec):
    kind = spec[0]
    if kind == "A":
        lines = {}
        alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
        for g, (a, b, c, at, fill) in enumerate(spec[1]):
            ls = [fill] * 32
            ls[at:at + 3] = [a, b, c]
            for i, n in enumerate(ls):
                # every line has a text of its own
                t = f"{g:X}-{i:X}-" + alphabet[i % 26] * 80
                lines[(g + spec[2]) * 32 + i] = t[:n].encode()
        return icupkg.Names(lines, None, FAR)
    if kind == "B":
        _, tokens, count, lines = spec
        return icupkg.Names({0x40 + i: bytes(x) for i, x in enumerate(lines)}, dict(tokens), FAR, token_count=count)
    if kind == "E":
        return large(*spec[1:])
    _, lines, ranges = spec
    return icupkg.Names({c: n.encode() for c, n in lines}, None, ranges)


def compare(sub, root, spec, points, choices=(0, 1, 3, 4), reverse=True):
    names = build(spec)
    tag = spec[0]
    try:
        with cpu_limit(100, f"family {tag}"):
            CN = install(root, names)
            for ch in choices:
                for c in points:
                    want = names.name(c, ch)
                    got = CN.getCharName(c, ch)
                    if got != want:
                        return fail(sub, spec, f"getCharName(U+{c:04X}, {ch}) is {got!r}, expected {want!r}", f"CN.getCharName({c:#x}, {ch})", want, f"{c:X}:{ch}")
                sub.count(transitions=len(points))
            for ch in choices:
                listing = list(names.all_names(ch).items())
                got = list(itertools.islice(CN.nameIterator(ch), len(listing) + 1000))
                sub.count(transitions=len(got), traces=1)
                if got != listing:
                    return fail(sub, spec, f"nameIterator({ch}) gives {summary(got, listing)}", f"list(CN.nameIterator({ch}))", listing, f"it:{ch}")
                if reverse and ch in (0, 3):
                    seen = set()
                    for c, n in listing if len(listing) < 3000 else listing[:: len(listing) // 100]:
                        if n in seen:
                            continue
                        seen.add(n)
                        first = next(k for k, v in listing if v == n)
                        got = CN.charFromName(n, ch)
                        sub.count(transitions=1)
                        if got != first:
                            return fail(sub, spec, f"charFromName({n!r}, {ch}) is {got!r}, expected {first:#x}", f"CN.charFromName({n!r}, {ch})", first, f"rev:{n}:{ch}")
                    # names that no character has: beyond the first, the last and none
                    for n in {n for _, k in listing[:1] + listing[-1:] for n in (k + "?", k[:-1], "?" + k)} | {"NO SUCH NAME"}:
                        if n and n not in seen and all(k != n for _, k in listing):
                            got = CN.charFromName(n, ch)
                            sub.count(transitions=1)
                            if got != 0xFFFFFFFF:
                                return fail(sub, spec, f"charFromName({n!r}, {ch}) is {got!r}, expected 0xFFFFFFFF", f"CN.charFromName({n!r}, {ch})", 0xFFFFFFFF, f"rev:{n}:{ch}")
    except common.Hang as e:
        fail(sub, spec, str(e), "CN.nameIterator and None", None, "hang")
    except Exception as e:
        if not common.from_sut(e):
            raise
        fail(sub, spec, f"{type(e).__name__}: {e}", "list(CN.nameIterator(0))", list(names.all_names(0).items()), "exception")
    sub.count(states=1)


def summary(got, want):
    i = next((i for i, (g, w) in enumerate(zip(got, want)) if g != w), min(len(got), len(want)))
    return f"{got[i:i+2]} at {i}, expected {want[i:i+2]} ({len(got)} of {len(want)})"


def fail(sub, spec, msg, call, want, key):
    small = repr(spec) if len(repr(spec)) < 400 else repr(spec)[:200] + "..."
    rep = REPLAY.format(spec=spec, call=call, want=want) if len(repr(spec)) + len(repr(want)) < 20000 else ""
    sub.violation(f"{spec[0]}:{small}:{key}", f"names data {small}: {msg}", rep)


def large(kind, n):
    """Tables whose numbers outgrow a byte, 15 or 16 bits."""
    if kind == "groups":
        # n groups spread over the code space, each with three lines; strings past 64 KiB
        lines = {}
        for k in range(n):
            g = 3 + k * (0x8800 - 4) // max(1, n - 1)
            for i in (0, 5 + k % 20, 31):
                if g * 32 + i < 0x20000 or g * 32 + i > 0x20002:
                    lines[g * 32 + i] = (f"N{k:X}-{i:X} " + "ABCDEFGH" * (k % 9))[:75].encode()
        return icupkg.Names(lines, None, FAR)
    if kind == "dense":
        # n groups side by side, every line named
        return icupkg.Names({c: f"LINE {c:X}".encode() + b"X" * (c % 61) for c in range(0x60, 0x60 + n * 32)}, None, FAR)
    if kind == "tokens":
        # two-byte tokens under several lead bytes, n characters of text in all
        leads = (2, 4, 8, 0x0F)
        each = n // (len(leads) * 256 + 1)
        tokens = {(le, b): (f"{le:X}.{b:X}." + "qrstuv" * each)[:each] + chr(0x41 + b % 26) for le in leads for b in range(256) if b != 0x3B}
        tokens[3] = "Z" * (n % 1000)
        lines = {0x40 + i: bytes(k) for i, k in enumerate(k for k in tokens if isinstance(k, tuple))}
        lines[0x20] = b"\x03"
        return icupkg.Names(lines, tokens, FAR, token_count=(leads[-1] << 8) + 257)
    if kind == "long":
        # a text of n characters for one token
        return icupkg.Names({0x40: b"\x01", 0x41: b"A\x01B", 0x42: b"\x02", 0x43: b"A;;;\x01"}, {1: "L" * n, 2: "AFTER"}, FAR, token_count=5)
    if kind == "factor":
        # one factor of n values; the range's size is past 32 KiB for the largest
        return icupkg.Names({0x20: b"SPACE"}, None, [("factor", 0x30000, 0x30000 + 3 * n - 1, (3, n), "E ", [["A", "B", "C"], [f"{i:x}." for i in range(n)]])])
    if kind == "ranges":
        out = []
        for i in range(n):
            a = 0x1000 + 0x40 * i
            out.append(("prefix", a, a + i % 70 % 48, 4 + i % 3, f"P{i}-" + "-" * (i % 40)) if i % 2 else
                       ("factor", a + 2, a + 7, (2, 3), f"F{i} ", [["X", "Y"], ["", "B" * (i % 7), "C"]]))
        return icupkg.Names({0x20: b"SPACE", 0x100000: b"FAR AWAY"}, None, out)
    raise AssertionError(kind)


def family_e(thorough):
    out = [("groups", n) for n in (2, 15, 16, 17, 255, 256, 257, 1000, 3000)]
    out += [("dense", n) for n in (40, 300)]
    out += [("tokens", n) for n in (3000, 0x7E00, 0x8200, 0xF000)]
    out += [("long", n) for n in (1, 75, 76, 127, 128, 255, 256, 257, 1000, 0x7FFF, 0x8000, 0xFF00)]
    out += [("factor", n) for n in (16, 127, 128, 129, 255, 256, 257, 1000, 5000, 10000)]
    out += [("ranges", n) for n in (1, 2, 7, 8, 16, 33, 100)]
    if thorough:
        out += [("groups", n) for n in (10000, 32767, 0x8700)] + [("dense", 2000)]
    return [("E",) + x for x in out]


def points_e(spec):
    names = build(spec)
    pts = set(names.lines)
    for r in names.ranges:
        pts.update(range(r[1], r[2] + 1))
    pts = sorted(pts)
    if len(pts) > 4000:
        pts = pts[:300] + pts[-300:] + pts[300:-300:len(pts) // 1500]
    return sorted({q for c in pts for q in (c, min(c + 1, 0x10FFFF), c ^ 0x20 if c ^ 0x20 < 0x110000 else c)})


LENGTHS = [0, 1, 2, 11, 12, 13, 27, 28, 43, 44, 59, 60, 75]


def family_a(thorough):
    out = []
    for at in (0, 1, 29, 28) if not thorough else (0, 1, 2, 15, 28, 29):
        for fill in (0, 1) if not thorough else (0, 1, 12):
            for t in itertools.product(LENGTHS, repeat=3):
                out.append(t + (at, fill))
    return out


SYMBOLS = {"lit": b"K", "t1": b"\x01", "t2a": b"\x05\x00", "t2b": b"\x05\xff", "e": b"\x02", "hi": b"\xf0", "sp": b" "}
TOKENS = ((0x01, "ALPHA"), (0x02, ""), ((0x05, 0x00), "BETA "), ((0x05, 0xFF), "GAMMA"))


def family_b(thorough):
    """(tokens, token count, lines)"""
    out = []
    syms = list(SYMBOLS.values())
    words = [b"".join(w) for n in range(0, 4 if not thorough else 5) for w in itertools.product(syms, repeat=n)]
    lines = list(words)
    for a, b in itertools.product(words[:60], repeat=2):
        lines.append(a + b";;;" + b)
        if len(a) < 3:
            lines.append(a + b";" + b + b";" + a + b";" + b)
    lines = [x for x in lines if len(x) <= 75]
    top = (5 << 8 | 0xFF) + 2          # odd
    out.append((TOKENS, top, lines))
    out.append((TOKENS, top + 200, lines))
    # one-byte tokens only, the table ends early: later bytes are literals
    one = (b"K", b"\x01", b"\x02", b"\xf0", b" ")
    words1 = [b"".join(w) for n in range(0, 4) for w in itertools.product(one, repeat=n)]
    for count in (3, 0x21, 0x3B, 0x3D, 0xF1):
        out.append((((0x01, "ALPHA"), (0x02, "B")), count, words1 + [a + b";;;" + b for a, b in itertools.product(words1[:26], repeat=2)]))
    return out


def family_c(thorough):
    out = []
    for digits in (4, 5, 6):
        for a, b in ((0x40, 0x40), (0x41, 0x5E), (0x7F, 0x81), (0xFFE0, 0x1001F), (0x10FFE1, 0x10FFFF)):
            out.append((("prefix", a, b, digits, "X IDEOGRAPH-"),))
    top = 4 if thorough else 3
    # the format allows up to eight factors
    shapes = [(n, top) for n in (1, 2, 3)] + ([(4, 3), (5, 3), (6, 2), (7, 2), (8, 2)] if thorough else [(4, 3), (5, 2), (8, 2)])
    for n, limit in shapes:
        for f in itertools.product(range(1, limit + 1), repeat=n):
            total = 1
            for k in f:
                total *= k
            elems = [[("" if i == 0 and j else chr(65 + 5 * j + i) * (1 + (i + j) % 3)) for i in range(k)] for j, k in enumerate(f)]
            for a in (0x40, 0x47):
                out.append((("factor", a, a + total - 1, f, "SYLLABLE ", elems),))
                if total > 1:                # a range shorter than the product
                    out.append((("factor", a, a + total - 2, f, "", elems),))
    out.append((("prefix", 0x40, 0x7F, 4, "A-"), ("factor", 0x80, 0x85, (2, 3), "S ", [["X", "Y"], ["", "B", "C"]]), ("prefix", 0x3400, 0x3410, 5, "B-")))
    return out


def family_d(thorough):
    base = 0x400
    grid = [0, 5, 31, 32, 40, 63, 64, 100, 127] if not thorough else [0, 1, 5, 30, 31, 32, 33, 40, 63, 64, 70, 95, 96, 100, 126, 127]
    ivs = [(a, b) for a in grid for b in grid if a <= b]
    sets = [()] + [(i,) for i in ivs] + [(i, j) for i in ivs for j in ivs if i[1] < j[0]]
    for rs in sets:
        ranges = [("prefix", base + a, base + b, 4, f"R{n}-") for n, (a, b) in enumerate(rs)]
        free = [p for p in (3, 17, 34, 50, 66, 110, 125) if not any(a <= p <= b for a, b in rs)]
        by_group = {}
        for p in free:
            by_group.setdefault(p >> 5, []).append(p)
        gs = list(by_group)
        for k in range(len(gs) + 1):
            for sel in itertools.combinations(gs, k):
                lines = [(base + p, f"NAME {p}") for g in sel for p in by_group[g]]
                # the data always name something outside the window, as every real table does
                yield [(0x20, "SPACE")] + lines, ranges


def _run(sub, jobs):
    common.unload()
    root = common.stage(b"")
    for spec, points in jobs:
        compare(sub, root, spec, points)


def run(ctx):
    fa = family_a(ctx.thorough)
    chunk = 500
    jobs = []
    for i in range(0, len(fa), chunk):
        part = fa[i:i + chunk]
        spec = ("A", tuple(part), 3)
        jobs.append((spec, range(0x40, (len(part) + 5) * 32)))
    for tokens, count, lines in family_b(ctx.thorough):
        for i in range(0, len(lines), 1500):
            part = lines[i:i + 1500]
            jobs.append((("B", tokens, count, tuple(part)), range(0x20, 0x60 + len(part))))
    for ranges in family_c(ctx.thorough):
        pts = set()
        for r in ranges:
            pts.update(range(max(0, r[1] - 3), min(0x110000, r[2] + 4)))
        jobs.append((("C", ((0x20, "SPACE"), (0x30, "DIGIT ZERO")), ranges), sorted(pts | {0x20, 0x30})))
    nd = 0
    for lines, ranges in family_d(ctx.thorough):
        if not ranges:
            # the listing needs at least one range: every real table has some
            ranges = [("prefix", 0x3400, 0x3402, 4, "FAR-")]
        jobs.append((("D", tuple(lines), tuple(ranges)), range(0x3F8, 0x488)))
        nd += 1
    fe = family_e(ctx.thorough)
    jobs[:0] = [(spec, points_e(spec)) for spec in fe]
    n = common.NCPU * 4
    common.parallel(ctx, _run, [(jobs[i::n],) for i in range(n)])
    ctx.dat = "small"
    ctx.extra(tables=len(jobs), group_encodings=len(fa), layouts=nd, large_tables=len(fe), exhaustive=True)
    ctx.cov["rule"] = "state = one names table; transition = one name looked up, listed or reversed; trace = one complete listing compared"
    ctx.sample({"lengths": fa[77]})
    ctx.sample({"layout": repr(jobs[-1][0])})
    ctx.assumptions += ["no two-byte token has ';' as its second byte and ';' is not a token (neither does genname make such)",
                        "tables have at least one group and one algorithmic range"]
