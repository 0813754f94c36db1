"""C35: bidi and joining properties are read from the tables the way ICU's format says,
whatever the tables contain.

 * every 16-bit properties word, on BMP and supplementary characters
 * mirror tables: sizes, code points and indexes at their limits, every member and the
   characters between members asked, in every pairing of a small table
 * joining group arrays: all combinations of two ranges (empty, one, many; low, high)
"""
import itertools

from .. import common, synth, tries
from ..common import load, need

FUNCTIONS = ["getCharDirection", "isMirrored", "getMirror", "isBidiControl", "isJoinControl", "getJoiningType", "getJoiningGroup",
             "getPairedBracketType", "getPairedBracket"]


class Tables:
    """words: {code point: 16-bit word}; mirrors: {code point: mirror}; groups: [(start, values)] (two)."""

    def __init__(self, words, mirrors=None, groups=(), high_start=0x110000):
        self.words, self.mirrors, self.high_start = words, mirrors or {}, high_start
        self.groups = (list(groups) + [(0, ()), (0, ())])[:2]

    def values(self):
        image = tries.Utrie2Image(synth.blocks(self.words), high_start=self.high_start)
        d = synth.trie2("ubidi_props_trie", image)
        d["ubidi_props_trieIndex"] = d.pop("ubidi_props_trie_index")
        order = sorted(self.mirrors)
        at = {c: i for i, c in enumerate(order)}
        idx = [0] * 16
        idx[0], idx[1], idx[2], idx[3] = 16, 64 + 2 * len(image.index), 2 * len(image.index), len(order)
        for k, (start, values) in enumerate(self.groups):
            idx[4 + 2 * k], idx[5 + 2 * k] = start, start + len(values)
        idx[15] = 0x6502B6
        d.update(ubidi_props_indexes=idx, ubidi_props_mirrors=[c | at[self.mirrors[c]] << 21 for c in order],
                 ubidi_props_jgArray=list(self.groups[0][1]), ubidi_props_jgArray2=list(self.groups[1][1]))
        return d

    def install(self):
        common.unload()
        synth.rewrite("BidiPropsData", self.values())
        return load("BidiProps")

    def group(self, c):
        for start, values in self.groups:
            if start <= c < start + len(values):
                return values[c - start]
        return 0

    def answers(self, c):
        w = self.words.get(c, 0)
        delta = w >> 13
        if delta == 4:
            mirror = self.mirrors.get(c, c)
        else:
            mirror = c + (delta - 8 if delta > 4 else delta)
        bpt = w >> 8 & 3
        return [w & 31, bool(w >> 12 & 1), mirror, bool(w >> 11 & 1), bool(w >> 10 & 1), w >> 5 & 7, self.group(c), bpt, mirror if bpt else c]


def word_tables(k):
    """Arrangements of all 65536 words."""
    if k == 0:
        return Tables({0x10000 + w: w for w in range(0x10000)})
    if k == 1:
        return Tables({0x30003 + w: (w * 0x5A35 + 77) & 0xFFFF for w in range(0x10000)})
    mul = 2 * k + 1
    return Tables({c: (c * mul + 3 * k) & 0xFFFF for c in range(3, 0x10000)})


ESC = 4 << 13
PLACES = [0x0, 0x28, 0x7F, 0x80, 0x2208, 0x298B, 0xD7FF, 0xDC00, 0xFFFF, 0x10000, 0x1FFFF, 0x10FFFF]


def mirror_tables(thorough):
    out = []
    for n in range(0, 4 if not thorough else 5):
        for cps in itertools.combinations(PLACES, n):
            # every way the members can map to one another
            for image in itertools.permutations(range(n)) if n < 4 else [tuple(range(n - 1, -1, -1)), (1, 2, 3, 0)]:
                out.append(("small", cps, image))
    for n in (31, 32, 33, 256, 1024, 2047, 2048):
        out.append(("large", n, 0))
        out.append(("large", n, 1))
    return out


def mirrors(spec):
    kind, a, b = spec
    if kind == "small":
        m = {c: a[b[i]] for i, c in enumerate(a)}
        asked = sorted({x for c in set(a) | set(PLACES) for x in (c - 1, c, c + 1) if 0 <= x < 0x110000})
    else:
        step = 0x10FFFF // a if b else 3
        cps = [0x100 + i * step for i in range(a)]
        m = {c: cps[-1 - i] for i, c in enumerate(cps)}
        asked = sorted({x for c in cps for x in (c - 1, c, c + 1) if x < 0x110000})
    # every character asked has the escape value; some are brackets
    return Tables({c: ESC | (c % 3 << 8) | 0x1000 for c in asked}, m), asked


def group_tables():
    lens = (0, 1, 2, 40, 300)
    starts1 = (0x0, 0x620, 0xFFF0)
    starts2 = (0x10AC0, 0x1FFFF, 0x10FED4)
    for s1, n1, s2, n2 in itertools.product(starts1, lens, starts2, lens):
        yield (s1, n1, s2, n2)


def groups(spec):
    s1, n1, s2, n2 = spec
    g = [(s1 if n1 else 0, tuple((i * 7 + 1) % 256 for i in range(n1))), (s2 if n2 else 0, tuple((i * 11 + 130) % 256 for i in range(n2)))]
    asked = sorted({x for s, n in ((s1, n1), (s2, n2)) for b in (s, s + n) for x in range(b - 3, b + 4) if 0 <= x < 0x110000}
                   | {x for s, n in ((s1, n1), (s2, n2)) for x in range(s, s + n)} | {0, 1, 0x10FFFF})
    return Tables({}, {}, g), asked


def tables(spec):
    kind, arg = spec
    if kind == "words":
        t = word_tables(arg)
        return t, sorted(t.words)
    return mirrors(arg) if kind == "mirrors" else groups(arg)


REPLAY = '''from mc.checks import c35
t, asked = c35.tables({spec!r})
m = t.install()
got, want = m.{f}({c:#x}), {want!r}
print(repr(got), "expected", repr(want))
bad = got != want'''


def job(sub, specs):
    common.stage()
    nv = 0
    for spec in specs:
        t, asked = tables(spec)
        m = t.install()
        fns = [need(m, f) for f in FUNCTIONS]
        n = 0
        for c in asked:
            for f, fn, want in zip(FUNCTIONS, fns, t.answers(c)):
                n += 1
                try:
                    got = fn(c)
                except Exception as x:
                    got = f"{type(x).__name__}: {x}"
                if got != want:
                    nv += 1
                    if nv < 6:
                        sub.violation(f"bidi:{spec}:{f}:{c:X}", f"{f}(U+{c:04X}) with the word {t.words.get(c, 0):#06x}, tables {spec!r}, is {got!r}, expected {want!r}",
                                      REPLAY.format(spec=spec, f=f, c=c, want=want))
                    else:
                        sub.nviol += 1
        sub.count(states=len(asked), transitions=n, traces=1)
    sub.sample(repr(specs[0]))


def run(ctx):
    specs = [("words", k) for k in (range(3) if not ctx.thorough else range(12))]
    jobs = [[s] for s in specs]
    rest = [("mirrors", s) for s in mirror_tables(ctx.thorough)] + [("groups", s) for s in group_tables()]
    n = common.NCPU * 2
    jobs += [rest[i::n] for i in range(n)]
    common.parallel(ctx, job, [(j,) for j in jobs])
    ctx.extra(tables=len(specs) + len(rest), exhaustive=True)
    ctx.cov["rule"] = ("state = (character, properties word) in tables written for the purpose; transition = one accessor call compared with the format's definition; "
                       "trace = one loaded set of tables")
