"""C36: decompositions are read from the normalization data the way ICU's format says,
whatever the data contain.

Data (the model) are written by an independent writer, once as the generated module
Norm2NFCData and twice as .nrm items of a data package, three different data sets at a
time; the package is imported anew and every character of the data is asked.
 * mappings: region x length x lead/trail combining class word x raw mapping (none, of any
   length, first two units replaced) x surrogate pairs
 * algorithmic mappings: every delta x class bits x target (inert, composing, decomposing,
   Hangul), with different amounts of maybe-yes data before the mappings
 * Hangul syllables, combining classes, lead surrogates, thresholds
"""
import itertools
import struct

from .. import common, icupkg, synth, tries
from ..common import load, need

INERT, JAMO_L, JAMO_VT, MIN_CC = 1, 2, 0xFE00, 0xFE02
REGIONS = ["yesNo", "yesNoMappingsOnly", "noNo", "noNoCompBoundaryBefore", "noNoCompNoMaybeCC", "noNoEmpty"]


def units(s):
    b = s.encode("utf-16-le", "surrogatepass")
    return [x for x, in struct.iter_unpack("<H", b)]


class Entry:
    """A mapping to `text`; raw: None (same as text), a string, or an int (replaces the
    first two units)."""

    def __init__(self, region, text, raw=None, ccc=0, after=0):
        self.region, self.text, self.raw, self.ccc, self.after = region, text, raw, ccc, after

    def emit(self, data):
        """Append to data; returns the norm16 value."""
        u = units(self.text)
        assert len(u) <= 31
        first = len(u) | (self.ccc << 8)
        if self.raw is not None:
            first |= 0x40
            if isinstance(self.raw, int):
                assert len(u) >= 2 and self.raw > 31
                data.append(self.raw)
            else:
                r = units(self.raw)
                assert 0 < len(r) <= 31
                data.extend(r)
                data.append(len(r))
        if self.ccc:
            first |= 0x80
            data.append(0xE600 | self.ccc)
        at = len(data)
        data.append(first)
        data.extend(u)
        if self.region == "yesNo":
            data += [0x8B01, 0x1234]       # compositions
        return at << 1 | self.after

    def answers(self, c, lookup):
        if self.raw is None:
            raw = self.text
        elif isinstance(self.raw, int):
            rest = units(self.text)[2:]
            raw = chr(self.raw) + struct.pack(f"<{len(rest)}H", *rest).decode("utf-16-le")
        else:
            raw = self.raw
        return self.text, raw

    def __repr__(self):
        return f"{self.region} mapping {self.text!r} raw {self.raw!r} ccc {self.ccc} bit0 {self.after}"


class Delta:
    def __init__(self, delta, tccc=0, after=1):
        self.delta, self.tccc, self.after = delta, tccc, after

    def answers(self, c, lookup):
        t = c + self.delta
        further = lookup(t)
        full = further.answers(t, lookup)[0] if further else None
        return (chr(t) if full is None else full), chr(t)

    def __repr__(self):
        return f"delta {self.delta} tccc {self.tccc}"


class Fixed:
    """A norm16 value without a mapping."""

    def __init__(self, kind, n=0):
        self.kind, self.n = kind, n

    def answers(self, c, lookup):
        return None, None

    def __repr__(self):
        return f"{self.kind} {self.n}"


class Hangul:
    def __init__(self, trail):
        self.trail = trail

    def answers(self, c, lookup):
        k = c - 0xAC00
        lv = chr(0x1100 + k // 588) + chr(0x1161 + k // 28 % 21)
        if self.trail:
            t = chr(0x11A7 + k % 28)
            return lv + t, chr(c - k % 28) + t
        return lv, lv

    def __repr__(self):
        return "LVT" if self.trail else "LV"


def hangul():
    return {c: Hangul((c - 0xAC00) % 28 != 0) for c in range(0xAC00, 0xD7A4)}


class Data:
    """entries: {code point: entry}.  yes: units of yes-yes compositions before the first
    mapping; maybe: units of maybe-yes compositions (multiple of 4); count: indexes."""

    def __init__(self, entries, yes=1, maybe=0, count=20, min_decomp=None, high_start=0x110000, lead=0):
        self.entries, self.yes, self.maybe, self.count, self.lead = entries, yes, maybe, count, lead
        self.high_start = high_start
        lowest = min([c for c, e in entries.items() if not isinstance(e, Fixed)] + [0x110000])
        self.min_decomp = lowest if min_decomp is None else min(min_decomp, lowest)

    def lookup(self, c):
        return self.entries.get(c)

    def build(self):
        data = [0, 0] + [0x7F01 + i for i in range(2 * (self.yes - 1))]       # offset 0: inert; 1: Jamo L; then compositions
        norm = {}
        min_maybe = 0xFC00 - 2 * self.maybe
        center = (min_maybe >> 3) - 0x40 - 1
        idx = [0] * self.count
        top = {}
        for region in REGIONS:
            top[region] = len(data) << 1
            if region in ("yesNo", "yesNoMappingsOnly"):
                data.append(0)             # Hangul LV, LVT
            for c, e in self.entries.items():
                if isinstance(e, Entry) and e.region == region:
                    norm[c] = e.emit(data)
        limit = (len(data) << 1) + 7 & ~7
        data += [0x5555] * ((limit >> 1) - len(data))
        assert limit <= (center - 0x40) << 3, (limit, center)
        for c, e in self.entries.items():
            if isinstance(e, Delta):
                norm[c] = (e.delta + center) << 3 | e.tccc << 1 | e.after
                assert limit <= norm[c] < min_maybe
            elif isinstance(e, Hangul):
                norm[c] = top["yesNoMappingsOnly"] | 1 if e.trail else top["yesNo"]
            elif isinstance(e, Fixed):
                if e.kind == "inert":
                    norm[c] = INERT
                elif e.kind == "jamoL":
                    norm[c] = JAMO_L
                elif e.kind == "jamoVT":
                    norm[c] = JAMO_VT
                elif e.kind == "yes":      # composes forward: anything below minYesNo
                    norm[c] = min(4 + 2 * e.n, top["yesNo"] - 2) | e.n & 1
                elif e.kind == "last":
                    norm[c] = top["yesNo"] - 1 - e.n
                elif e.kind == "maybe":
                    norm[c] = min(min_maybe + 2 * e.n, 0xFC00)
                elif e.kind == "maybecc":
                    norm[c] = 0xFC00 + 2 * e.n
                elif e.kind == "cc":
                    norm[c] = MIN_CC + 2 * e.n
        for c in range(0xD800, 0xDC00):
            if self.lead:
                norm[c] = self.lead(top, center) if callable(self.lead) else self.lead
        idx[8], idx[9], idx[18] = self.min_decomp, 0x300, 0x300
        idx[10], idx[14], idx[11], idx[15], idx[16], idx[17] = (top[r] for r in REGIONS)
        idx[12], idx[13] = limit, min_maybe
        blocks = {}
        for c, v in norm.items():
            b = blocks.setdefault(c >> 4, [INERT] * 16)
            b[c & 15] = v
        image = tries.CPTrieImage({k: tuple(v) for k, v in blocks.items()}, null=INERT, high=INERT, error=INERT, high_start=self.high_start)
        extra = [0x6001 + i for i in range(self.maybe)] + data
        trie = image.serialize()
        trie += b"\0" * (-len(trie) % 4)
        idx[0] = 4 * self.count
        idx[1] = idx[0] + len(trie)
        idx[2] = idx[1] + 2 * len(extra)
        for k in range(3, 8):
            idx[k] = idx[2] + 256
        return image, idx, extra, trie

    def module(self):
        image, idx, extra, _ = self.build()
        p = "norm2_nfc_data_"
        return {p + "indexLength": len(image.index), p + "dataLength": len(image.data), p + "highStart": self.high_start,
                p + "shifted12HighStart": (self.high_start + 0xFFF) >> 12, p + "type": 0, p + "valueWidth": 0,
                p + "index3NullOffset": image.i3null, p + "dataNullOffset": image.null_off, p + "nullValue": INERT,
                p + "indexes": idx, p + "trieIndex": image.index, p + "trieData": image.data, p + "extraData": extra, p + "smallFCD": [0] * 256}

    def item(self, extra_header=b""):
        _, idx, extra, trie = self.build()
        return icupkg.header(b"Nrm2", extra_header, version=(4, 0, 0, 0)) + struct.pack(f"<{len(idx)}I", *idx) + trie + struct.pack(f"<{len(extra)}H", *extra) + bytes(256)


NAMES = ["nfcTrie", "nfkcTrie", "nfkc_cfTrie"]


def install(data, extra_header=b""):
    """Three data sets, one for each of the package's normalizers."""
    common.unload()
    synth.rewrite("Norm2NFCData", data[0].module())
    blob, _ = icupkg.package([("nfkc.nrm", data[1].item(extra_header)), ("nfkc_cf.nrm", data[2].item())])
    import os
    with open(os.path.join(common.scratch(), "UnicodeData", "Data", "icudata.dat"), "wb") as f:
        f.write(blob)
    return load("Normalizer2")


# ---------------------------------------------------------------- families

def text(k, n, pairs):
    """n units; pairs: 0 none, 1 starts with a surrogate pair, 2 ends with one, 3 all pairs."""
    s, left = "", n
    i = 0

    def bmp():
        nonlocal i
        i += 1
        return chr(0x3400 + (k * 53 + i * 7) % 0x6000)

    def sup():
        nonlocal i
        i += 1
        return chr(0x10000 + (k * 101 + i * 0x3FF) % 0xFFFFF)
    if pairs == 1 and left >= 2:
        s, left = sup(), left - 2
    tail = ""
    if pairs == 2 and left >= 2:
        tail, left = sup(), left - 2
    if pairs == 3:
        while left >= 2:
            s, left = s + sup(), left - 2
    while left:
        s, left = s + bmp(), left - 1
    return s + tail


def mapping_family(thorough):
    k = 0
    raws = list(range(1, 32)) if thorough else [1, 2, 3, 7, 30, 31]
    for region in REGIONS:
        for n in range(32):
            if (region == "noNoEmpty") != (n == 0):
                continue
            for ccc in (0, 1, 230, 255) if n else (0,):
                for pairs in range(4):
                    if pairs and n < 2:
                        continue
                    for raw in [None] + (["rm0"] if n >= 2 else []) + (raws if pairs in (0, 3) or thorough else raws[:3]):
                        if n == 0 and raw is not None or ccc in (1, 255) and raw not in (None, "rm0", 2):
                            continue
                        k += 1
                        if raw == "rm0" and 0xD800 <= units(text(k, n, pairs))[1] < 0xDC00:
                            continue        # the replaced units would cut a pair
                        if raw == "rm0":
                            raw = (0x20, 0xC0, 0x3042, 0xD7FF, 0xE000, 0xFFFD)[k % 6]
                        elif raw is not None:
                            raw = text(k + 7, raw, (k + pairs) % 4)
                        yield Entry(region, text(k, n, pairs), raw, ccc, k & 1)


def place(base, entries):
    """Characters for the entries, none of them a surrogate or a Hangul syllable."""
    out, c = {}, base
    for e in entries:
        if 0xAC00 <= c < 0xE000:
            c = 0xE000
        out[c] = e
        c += 1
    return out


def mapping_data(thorough):
    cur, size, out = [], 0, []
    for e in mapping_family(thorough):
        n = len(units(e.text)) + (len(units(e.raw)) + 1 if isinstance(e.raw, str) else 1) + 6
        if size + n > 25000:
            out.append(cur)
            cur, size = [], 0
        cur.append(e)
        size += n
    out.append(cur)
    bases = [0xC0, 0x3400, 0x9000, 0x10000, 0x20000, 0xF0000]
    res = []
    for i, es in enumerate(out):
        # with Hangul, and with characters that have no mapping next to the ones that have
        ents = place(bases[i % len(bases)], es)
        ents.update(hangul())
        res.append(Data(ents, yes=(1, 2, 0x40, 0x400)[i % 4], maybe=(0, 4, 0x80, 0x400)[i // 2 % 4], count=(20, 24, 32)[i % 3],
                        min_decomp=(None, 0x41, 0)[i % 3]))
    return res


def delta_data(thorough):
    out = []
    for maybe, yes in itertools.product((0, 4, 0x100, 0x1000) if thorough else (0, 4, 0x100), (1, 0x100)):
        ents = dict(hangul())
        k = 0
        # targets of every kind, characters at every distance
        for base in (0x2000, 0x20000, 0x10F000):
            c = base
            for d, tccc in itertools.product(range(-0x40, 0x41), range(3)):
                if d == 0:
                    continue
                c += 4
                for _ in range(400):
                    if c not in ents and c + d not in ents:
                        break
                    c += 1
                k += 1
                ents[c] = Delta(d, tccc, k & 1)
                ents[c + d] = (Fixed("inert"), Fixed("yes", k), Entry("yesNo", text(k, 1 + k % 4, k % 3)), Entry("yesNoMappingsOnly", text(k, 2, 0), 0x41),
                               Fixed("last", k % 2), Fixed("jamoL"), Entry("yesNo", text(k, 3, 1), text(k, 2, 0), 230))[k % 7]
        # Hangul targets, from both sides
        for d in range(1, 0x41):
            ents[0xAC00 - d] = Delta(d, 0)
            ents[0xD7A3 + d] = Delta(-d, 0)
        out.append(Data(ents, yes=yes, maybe=maybe))
    # every delta from one and the same neighbourhood: the target is inert
    for maybe in (0, 4):
        ents = {0x1000 + 0x100 * (d + 0x40): Delta(d, t) for d in range(-0x40, 0x41) for t in (2,) if d}
        out.append(Data(ents, maybe=maybe))
    return out


def fixed_data(thorough):
    out = []
    for maybe, yes in ((0, 1), (4, 2), (0x200, 0x200), (0x3F8, 0x20)):
        ents = {}
        c = 0x300
        for n in range(256):
            if n < 255:
                ents[c] = Fixed("maybecc", n)
            c += 1
            if n < 254:
                ents[c] = Fixed("cc", n)
            c += 1
            ents[c] = Fixed("maybe", n)
            c += 1
            ents[c] = Fixed("yes", n)
            c += 1
            ents[c] = Fixed("last", n % 2)
            c += 1
            # a mapping between them
            ents[c] = Entry(REGIONS[n % 5], text(n, 1 + n % 30, n % 4), None, n if n % 3 else 0, n & 1)
            c += 1
        ents.update({0x1100 + i: Fixed("jamoL") for i in range(19)})
        ents.update({0x1161 + i: Fixed("jamoVT") for i in range(21)})
        for lead in (0, lambda top, center: top["noNo"] + 2, lambda top, center: (center + 1) << 3, lambda top, center: top["yesNo"], 0xFC00):
            out.append(Data(dict(ents), yes=yes, maybe=maybe, lead=lead, high_start=0x110000 if lead == 0 else 0x20000))
    # thresholds: the first character with a decomposition decides minDecompNoCP
    for first in (0, 1, 0x41, 0x7F, 0x80, 0xA0, 0xFFFF, 0x10000, 0x10FFFF):
        for e in (Entry("noNo", "ab"), Entry("yesNo", "a\u0301", ccc=230), Delta(-1 if first == 0x10FFFF else 1)):
            out.append(Data({first: e}))
            out.append(Data({first: e}, min_decomp=0))
    return out


def families(thorough):
    return mapping_data(thorough) + delta_data(thorough) + fixed_data(thorough)


def triples(thorough):
    """Each data set in each of the three roles, beside two others."""
    n = len(families(thorough))
    step = 1 if n % 5 else 2
    return [(i, (i + step) % n, (i + 3 * step) % n) for i in range(n)]


REPLAY = '''from mc.checks import c36
fam = c36.families({thorough!r})
m = c36.install([fam[i] for i in {triple!r}])
got = m.{trie}.{f}({c:#x})
want = {want!r}
print(repr(got), "expected", repr(want))
bad = (got or None) != (want or None) if {f!r} == "getRawDecomposition" else got != want'''


def job(sub, thorough, part, parts):
    common.stage(b"")
    fam = families(thorough)
    nv = 0
    for triple in triples(thorough)[part::parts]:
        m = install([fam[i] for i in triple], b"x" * (triple[0] % 3 * 20))
        n = states = 0
        for name, i in zip(NAMES, triple):
            trie = need(m, name)
            D = fam[i]
            full, raw = need(trie, "getDecomposition"), need(trie, "getRawDecomposition")
            asked = set(D.entries)
            if D.lead:
                asked |= {0xD800, 0xD801, 0xDABC, 0xDBFF}
            edge = {x for c in list(D.entries)[:3000] for x in (c - 1, c + 1) if 0 <= x < 0x110000 and not 0xD800 <= x < 0xDC00}
            for c in sorted(asked | edge):
                e = D.entries.get(c)
                want = e.answers(c, D.lookup) if e and not 0xD800 <= c < 0xDC00 else (None, None)
                states += 1
                for f, fn, w in (("getDecomposition", full, want[0]), ("getRawDecomposition", raw, want[1])):
                    n += 1
                    try:
                        got = fn(c)
                    except Exception as x:
                        got = f"{type(x).__name__}: {x}"
                    if (got or None) != (w or None) if f == "getRawDecomposition" else got != w:
                        nv += 1
                        if nv < 6:
                            sub.violation(f"norm:{name}:{triple}:{f}:{c:X}", f"{name}.{f}(U+{c:04X}) with {e!r} is {got!r}, expected {w!r}",
                                          REPLAY.format(thorough=thorough, triple=triple, trie=name, f=f, c=c, want=w))
                        else:
                            sub.nviol += 1
        sub.count(states=states, transitions=n, traces=3)
    if part == 0:
        D = fam[0]
        sub.sample("; ".join(f"U+{c:04X} {e!r}" for c, e in list(D.entries.items())[40:42]))


def run(ctx):
    ts = triples(ctx.thorough)
    parts = common.NCPU * 2
    common.parallel(ctx, job, [(ctx.thorough, p, parts) for p in range(parts)])
    ctx.extra(data_sets=len(ts), exhaustive=True)
    ctx.cov["rule"] = ("state = (character, entry) in normalization data written for the purpose; transition = one decomposition asked and compared with the entry; "
                       "trace = one loaded data set (hard-coded module or .nrm item)")
    ctx.assumptions += ["a raw decomposition of None and of the empty string are not told apart"]
