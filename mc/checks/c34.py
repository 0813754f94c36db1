"""C34: case mappings are read from the tables the way ICU's format says, whatever the
tables contain.

Tables (the model) are written into the staged CasePropsData module, the package is
imported anew, and every case function is asked about every code point of the tables.
 * plain words: every type x every 9-bit delta x the flag bits that do not matter
 * exceptions: every subset of the slots x single/double slots x type x sign of the delta
   x conditional special x full mapping lengths, in every position of a larger array
"""
import itertools

from .. import common, synth, tries
from ..common import load, need

LOWER, FOLD, UPPER, TITLE, DELTA, SLOT5, CLOSURE, FULL = range(8)
FUNCTIONS = ["toLower", "toUpper", "toTitle", "toFullLower", "toFullUpper", "toFullTitle"]


# ---------------------------------------------------------------- model of ucase.cpp

class Plain:
    def __init__(self, type, delta, flags=0):
        self.type, self.delta, self.flags = type, delta, flags

    def word(self):
        return self.type | self.flags | (self.delta & 0x1FF) << 7

    def answers(self, c):
        low = c + self.delta if self.type & 2 else c
        up = c + self.delta if self.type == 1 else c
        return [low, up, up, chr(low), chr(up), chr(up)]

    def describe(self):
        return f"type {self.type} delta {self.delta} flags {self.flags:#x}"


class Exc:
    """An exceptions record.  slots: {index: value}; full: four strings or None."""

    def __init__(self, type, slots, double=0, negative=0, special=0, full=None, flags=0, closure=""):
        self.type, self.slots, self.double, self.negative, self.special, self.full, self.flags, self.closure = \
            type, slots, double, negative, special, full, flags, closure

    def record(self):
        w = self.flags | self.double << 8 | self.negative << 10 | self.special << 14
        slots = dict(self.slots)
        tail = []
        if self.closure:
            slots[CLOSURE] = len(self.closure)
        if self.full is not None:
            slots[FULL] = sum(len(s) << 4 * k for k, s in enumerate(self.full))
            for s in self.full:
                tail += [ord(ch) for ch in s]
        tail += [ord(ch) for ch in self.closure]
        out = []
        for i in sorted(slots):
            w |= 1 << i
            if self.double:
                out += [slots[i] >> 16, slots[i] & 0xFFFF]
            else:
                out.append(slots[i])
        return [w] + out + tail

    def answers(self, c):
        d = self.slots.get(DELTA)
        if d is not None and self.negative:
            d = -d
        s = self.slots
        low = c + d if d is not None and self.type & 2 else s.get(LOWER, c)
        up = c + d if d is not None and self.type == 1 else s.get(UPPER, c)
        title = c + d if d is not None and self.type == 1 else s.get(TITLE, s.get(UPPER, c))
        full = [None] * 4
        if self.special:
            if c == 0x130:
                full[0] = "i\u0307"
            if c == 0x587:
                full[2], full[3] = "\u0535\u0552", "\u0535\u0582"
        elif self.full is not None:
            full = self.full
        return [low, up, title, full[0] or chr(low), full[2] or chr(up), full[3] or chr(title)]

    def describe(self):
        return f"type {self.type} slots {self.slots} double {self.double} negative {self.negative} special {self.special} full {self.full!r} closure {self.closure!r} flags {self.flags:#x}"


# ---------------------------------------------------------------- families

def plain_family():
    """(code point, entry) of the words without exceptions."""
    c = 0x1000
    for type, delta in itertools.product(range(4), range(-256, 256)):
        for flags in (0, 0x74):       # ignorable, sensitive, dots
            yield c, Plain(type, delta, flags)
            c += 1
    for type, delta in itertools.product(range(4), (-256, -1, 0, 1, 255)):
        yield 0x10000 + 0x200 * (type + 1) + delta, Plain(type, delta)


def value(k, slot):
    """Distinct values for the slots of record number k."""
    return 0x4000 + (k * 8 + slot) * 7 % 0x8000


def wide(k, slot):
    return 0x10000 + (k * 8 + slot) * 13 % 0x80000


def chars(k, n, which):
    return "".join(chr(0x3400 + (k * 61 + which * 17 + i) % 0x6000) for i in range(n))


SLOTS = (LOWER, FOLD, UPPER, TITLE, DELTA, SLOT5, CLOSURE, FULL)     # slot 5 is reserved: readers step over it


def exception_family(thorough):
    k = 0
    # every subset of the slots
    for n in range(len(SLOTS) + 1):
        for sub in itertools.combinations(SLOTS, n):
            for type, double, negative, special in itertools.product(range(4), (0, 1), (0, 1), (0, 1)):
                if negative and DELTA not in sub:
                    continue
                if special and FULL not in sub and not thorough and LOWER in sub:
                    continue
                k += 1
                val = wide if double else value
                slots = {s: val(k, s) for s in sub if s not in (CLOSURE, FULL)}
                if DELTA in slots:
                    slots[DELTA] = 1 + k % 0x300 + (0 if not double else 0x4000 if negative else 0xFF00)
                yield Exc(type, slots, double, negative, special,
                          [chars(k, 1 + (k + w) % 3, w) for w in range(4)] if FULL in sub else None, closure=chars(k, 2, 5) if CLOSURE in sub else "")
    # lengths of the full mappings
    top = 4 if thorough else 3
    for lens in itertools.product(range(top), repeat=4):
        for sub in ((), (LOWER,), (UPPER,), (UPPER, TITLE), (LOWER, UPPER, TITLE), (DELTA,)):
            k += 1
            slots = {s: value(k, s) for s in sub}
            if DELTA in slots:
                slots[DELTA] = 5
            yield Exc(1 + k % 2, slots, k % 3 == 0, k % 5 == 0, 0, [chars(k, n, w) for w, n in enumerate(lens)], closure=chars(k, k % 3, 5))
    for which, n in itertools.product(range(4), range(16)):
        k += 1
        yield Exc(0, {LOWER: value(k, 0), UPPER: value(k, 2)}, 0, 0, 0, [chars(k, n if w == which else 1, w) for w in range(4)])
    if thorough:
        for a, b in itertools.combinations(range(4), 2):
            for x, y in itertools.product(range(16), repeat=2):
                for sub in ((), (LOWER, UPPER, TITLE)):
                    k += 1
                    yield Exc(0, {s: value(k, s) for s in sub}, k % 2, 0, 0, [chars(k, x if w == a else y if w == b else k % 2, w) for w in range(4)])
    # flag bits that do not matter here
    for bit in (9, 11, 12, 13, 15):
        for sub in ((LOWER,), (UPPER, TITLE), (DELTA,), (FULL,)):
            k += 1
            yield Exc(k % 4, {s: value(k, s) % 0x100 if s == DELTA else value(k, s) for s in sub if s != FULL}, 0, 0, 0,
                      [chars(k, 2, w) for w in range(4)] if FULL in sub else None, flags=1 << bit)
    # extreme values
    for v in (0, 1, 0x7F, 0xFF, 0xD7FF, 0xE000, 0xFFFF):
        for s, double in itertools.product((LOWER, UPPER, TITLE), (0, 1)):
            yield Exc(0, {s: v}, double)
    for v in (0x10000, 0x1FFFF, 0x10FFFF):
        for s in (LOWER, UPPER, TITLE):
            yield Exc(0, {s: v}, 1)


LIMIT = 4095        # 12 bits of a word point into the exceptions array


def files(thorough):
    """The families cut into tables: [(kind, [(code point, entry)])]."""
    out = [[(c, e) for c, e in plain_family()]]
    cur, size = [], 0
    for e in exception_family(thorough):
        n = len(e.record())
        if size > LIMIT or len(cur) >= 0x2000:
            out.append(cur)
            cur, size = [], 0
        base = 0x5000 if len(out) % 2 else 0x20000       # BMP and supplementary characters take turns
        cur.append((base + len(cur), e))
        size += n
    out.append(cur)
    # every index into the exceptions array
    for lead in (0, 1):
        out.append([(0x4FFF, Exc(0, {}))] * lead + [(0x5000 + k, Exc(k % 4, {LOWER: 0x100 + k, UPPER: 0x8000 + k} if k % 3 == 0 else {UPPER: 0x8000 + k}))
                                                   for k in range(1750)])
    # the two characters with conditional mappings, under either kind of entry
    for special in (0, 1):
        for sub in itertools.chain.from_iterable(itertools.combinations((LOWER, UPPER, TITLE, FULL), n) for n in range(5)):
            out.append([(c, Exc(t, {s: value(7, s) for s in sub if s != FULL}, special=special,
                                full=[chars(9, 1 + w % 2, w) for w in range(4)] if FULL in sub else None))
                        for c, t in ((0x130, 2), (0x587, 1), (0x131, 1), (0x586, 1), (0xDF, 1))])
    out.append([(0x130, Plain(2, -199)), (0x587, Plain(1, -48)), (0x49, Plain(2, 32)), (0x69, Plain(1, -32)), (0x10400, Plain(2, 40)), (0x10428, Plain(1, -40))])
    return out


def install(entries):
    exceptions, words = [], {}
    for c, e in entries:
        if isinstance(e, Plain):
            words[c] = e.word()
        else:
            assert len(exceptions) <= LIMIT
            words[c] = len(exceptions) << 4 | 8 | e.type
            exceptions += e.record()
    common.unload()
    image = tries.Utrie2Image(synth.blocks(words), high_start=0x30000)
    d = synth.trie2("ucase_props_trie", image)
    d["ucase_props_trieIndex"] = d.pop("ucase_props_trie_index")
    idx = [0] * 16
    idx[0], idx[1], idx[2], idx[3], idx[15] = 16, 32 + 2 * len(image.index) + 2 * len(exceptions), 2 * len(image.index), len(exceptions), 3
    d.update(ucase_props_indexes=idx, ucase_props_exceptions=exceptions)
    synth.rewrite("CasePropsData", d)
    return load("CaseProps")


REPLAY = '''from mc.checks import c34
entries = c34.files({thorough!r})[{n}]
common.unload()
m = c34.install(entries)
got = m.{f}({c:#x})
print(repr(got), "expected", {want!r})
bad = got != {want!r}'''


def table(sub, thorough, n):
    common.stage()
    entries = files(thorough)[n]
    m = install(entries)
    fns = [need(m, f) for f in FUNCTIONS]
    nv = t = 0
    for c, e in entries:
        for f, fn, want in zip(FUNCTIONS, fns, e.answers(c)):
            t += 1
            try:
                got = fn(c)
            except Exception as x:
                got = f"{type(x).__name__}: {x}"
            if got != want:
                nv += 1
                if nv < 6:
                    sub.violation(f"case:{n}:{f}:{c:X}", f"{f}(U+{c:04X}) with the entry ({e.describe()}) is {got!r}, expected {want!r}",
                                  REPLAY.format(thorough=thorough, n=n, f=f, c=c, want=want))
                else:
                    sub.nviol += 1
    # characters the tables do not mention map to themselves
    named = {c for c, _ in entries}
    for c in sorted({x for c in named for x in (c - 1, c + 1)} - named)[:200] + [0, 0x41, 0x2FFFF, 0x30000, 0x10FFFF]:
        if c in named:
            continue
        for f, fn in zip(FUNCTIONS, fns):
            t += 1
            got, want = fn(c), chr(c) if "Full" in f else c
            if got != want:
                sub.violation(f"uncased:{n}:{f}:{c:X}", f"{f}(U+{c:04X}), which the tables do not mention, is {got!r}", REPLAY.format(thorough=thorough, n=n, f=f, c=c, want=want))
    sub.count(states=len(entries), transitions=t, traces=1)
    if n < 3:
        sub.sample(f"U+{entries[-1][0]:04X}: {entries[-1][1].describe()}"[:300])


def run(ctx):
    fs = files(ctx.thorough)
    common.parallel(ctx, table, [(ctx.thorough, n) for n in range(len(fs))])
    ctx.extra(tables=len(fs), entries=sum(len(f) for f in fs), exhaustive=True)
    ctx.cov["rule"] = ("state = one entry of a case table (word without exception, or exceptions record); transition = one case function asked about it, "
                       "compared with the format's definition; trace = one loaded set of tables")
    ctx.assumptions += ["full mappings consist of BMP characters, as in every Unicode version", "the default locale"]
