"""C33: character properties are read from the tables the way ICU's format says,
whatever the tables contain.

Tables (the model) are written into the staged CharPropsData module, the package is
imported anew, and every accessor is asked about every code point the tables speak of.
 * properties words: every 16-bit word (category 5 bits, numeric type/value 10 bits) on a
   supplementary code point, and, in other arrangements, on every BMP code point
 * properties vectors: every value of every field with the other fields empty or full,
   and every pair of boundary values of two fields
"""
import itertools

from .. import common, synth, tries
from ..common import load, need

# ---------------------------------------------------------------- the format (uprops.h)
CN, LU, LL, LT, LM, LO, MN, ME, MC, ND, NL, NO, ZS, ZL, ZP, CC, CF, CO, CS, PD, PS, PE, PC, PO, SM, SC, SK, SO, PI, PF = range(30)
L = {LU, LL, LT, LM, LO}
Z = {ZS, ZL, ZP}
P = {PD, PS, PE, PC, PO, PI, PF}
C = {CN, CC, CF, CO, CS}


def numeric(ntv):
    """(type, value) of a numeric type/value field."""
    if ntv == 0:
        return 0, None
    if ntv < 11:
        return 1, ntv - 1
    if ntv < 21:
        return 2, ntv - 11
    if ntv < 0xB0:
        return 3, ntv - 21
    if ntv < 0x1E0:
        return 3, ((ntv >> 4) - 12, (ntv & 15) + 1)
    if ntv < 0x300:
        return 3, ((ntv >> 5) - 14) * 10 ** ((ntv & 31) + 2)
    if ntv < 0x324:
        return 3, ((ntv >> 2) - 0xBF) * 60 ** ((ntv & 3) + 1)
    if ntv < 0x33C:
        f = ntv - 0x324
        return 3, (2 * (f & 3) + 1, 20 << (f >> 2))
    if ntv < 0x34C:
        f = ntv - 0x33C
        return 3, (2 * (f & 3) + 1, 32 << (f >> 2))
    return 3, None


def same_number(got, want):
    if want is None or got is None:
        return got is want
    if isinstance(got, (bool, str)):
        return False
    n, d = want if isinstance(want, tuple) else (want, 1)
    x = n / d
    return abs(got - x) <= 1e-12 * abs(x)


def iso(c):
    return c <= 0x1F or 0x7F <= c <= 0x9F


def java_control(c):
    return 9 <= c <= 0xD or 0x1C <= c <= 0x1F


def ignorable(c, g):
    return iso(c) and not java_control(c) if c <= 0x9F else g == CF


HEX = {ord(x) for x in "0123456789abcdefABCDEF"} | {0xFF21 + i for i in range(6)} | {0xFF41 + i for i in range(6)}
HEX_LETTERS = {c for c in HEX if c not in range(0x30, 0x3A)}

# name: (code point, category) -> bool
PREDICATES = {
    "isLower": lambda c, g: g == LL,
    "isUpper": lambda c, g: g == LU,
    "isTitle": lambda c, g: g == LT,
    "isDigit": lambda c, g: g == ND,
    "isHexDigit": lambda c, g: c in HEX_LETTERS or g == ND,
    "isalpha": lambda c, g: g in L,
    "isalnum": lambda c, g: g in L or g == ND,
    "isDefined": lambda c, g: g != CN,
    "isbase": lambda c, g: g in L or g in (ND, NL, NO, MC, ME),
    "iscntrl": lambda c, g: g in (CC, CF, ZL, ZP),
    "isISOControl": lambda c, g: iso(c),
    "isspace": lambda c, g: g in Z or java_control(c) or c == 0x85,
    "isJavaSpaceChar": lambda c, g: g in Z,
    "isWhiteSpace": lambda c, g: c not in (0xA0, 0x2007, 0x202F) and (g in Z or java_control(c)),
    "isBlank": lambda c, g: c in (9, 0x20) if c <= 0x9F else g == ZS,
    "isPrint": lambda c, g: g not in C,
    "isgraph": lambda c, g: g not in (CC, CF, CS, CN) and g not in Z,
    "isGraphPOSIX": lambda c, g: g not in (CC, CS, CN) and g not in Z,
    "isPrintPOSIX": lambda c, g: g == ZS or g not in (CC, CS, CN) and g not in Z,
    "ispunct": lambda c, g: g in P,
    "isIDStart": lambda c, g: g in L or g == NL,
    "isIDPart": lambda c, g: g in L or g in (ND, NL, PC, MC, MN) or ignorable(c, g),
    "isIDIgnorable": ignorable,
    "isJavaIDStart": lambda c, g: g in L or g in (SC, PC),
    "isJavaIDPart": lambda c, g: g in L or g in (ND, NL, SC, PC, MC, MN) or ignorable(c, g),
}


def word_of(c, arrangement):
    """The properties word of a code point: planes 0 and 1 carry every 16-bit word, each
    arrangement in another place."""
    if c < 0x20000:
        k = c & 0xFFFF
        mul, add = arrangement
        return (k * mul + add) & 0xFFFF if c < 0x10000 else k
    return 0


def install_words(arrangement):
    common.unload()
    image = tries.Utrie2Image(synth.blocks({c: word_of(c, arrangement) for c in range(0x20000)}), high_start=0x20000)
    synth.rewrite("CharPropsData", synth.trie2("propsTrie", image))
    return load("CharProps")


REPLAY = '''from mc.checks import c33
m = {install}
got = {expr}
want = {want!r}
print(repr(got), "expected", repr(want))
bad = not c33.same_number(got, want) if {number!r} else got != want'''


def words(sub, arrangement, lo, hi):
    common.stage()
    m = install_words(arrangement)
    nv = n = 0
    fns = [("getGeneralCategory", need(m, "getGeneralCategory"))] + [(k, need(m, k)) for k in PREDICATES]
    num, typ, dig = need(m, "getNumericValue"), need(m, "getNumericType"), need(m, "digitValue")

    def bad(name, c, w, got, want, number=False):
        nonlocal nv
        nv += 1
        if nv < 8:
            sub.violation(f"word:{name}:{c:X}:{w:04X}", f"{name}(U+{c:04X}) with the properties word {w:#06x} is {got!r}, expected {want!r}",
                          REPLAY.format(install=f"(common.unload(), c33.install_words({arrangement!r}))[1]", expr=f"m.{name}({c:#x})", want=want, number=number))
        else:
            sub.nviol += 1

    def ask(f, c):
        try:
            return f(c)
        except Exception as e:
            return f"{type(e).__name__}: {e}"
    for c in range(lo, hi):
        w = word_of(c, arrangement)
        g, ntv = w & 31, w >> 6
        if g < 30:
            got = ask(fns[0][1], c)
            n += len(fns)
            if got != g:
                bad("getGeneralCategory", c, w, got, g)
            for (name, f), p in zip(fns[1:], PREDICATES.values()):
                got = ask(f, c)
                want = p(c, g)
                if got != want or not isinstance(got, (bool, int)):
                    bad(name, c, w, got, want)
        t, v = numeric(ntv)
        got = ask(typ, c)
        if got != t:
            bad("getNumericType", c, w, got, t)
        got = ask(num, c)
        if not same_number(got, v):
            bad("getNumericValue", c, w, got, v, True)
        d = v if t == 1 else -1
        got = ask(dig, c)
        if got != d:
            bad("digitValue", c, w, got, d)
        n += 3
    sub.count(states=hi - lo, transitions=n, traces=1)
    if lo == 0:
        sub.sample(f"words arranged by {arrangement}: U+{lo:04X} has {word_of(lo, arrangement):#06x}")


# ---------------------------------------------------------------- vectors
# column 0: script extension kind/high/low, block, East Asian width, age
F0 = {"sx": (0x00F000FF, None), "block": (0x0001FF00, 8), "ea": (0x000E0000, 17), "age": (0xFF000000, 24)}
F2 = {"dt": (0x1F, 0), "gcb": (0x3E0, 5), "wb": (0x7C00, 10), "sb": (0xF8000, 15), "lb": (0x3F00000, 20)} | {f"bit{b}": (1 << b, b) for b in range(26, 32)}
SCRIPTS = [(i * 37 + 11) % 197 for i in range(0x400)]          # the script extensions array: every index leads to a script


def put(field, mask):
    """The field's value placed in its mask, low bits first."""
    out = bit = 0
    for b in range(32):
        if mask >> b & 1:
            out |= (field >> bit & 1) << b
            bit += 1
    return out


def get(word, mask):
    out = bit = 0
    for b in range(32):
        if mask >> b & 1:
            out |= (word >> b & 1) << bit
            bit += 1
    return out


def width(mask):
    return bin(mask).count("1")


def edge_values(mask):
    n = 1 << width(mask)
    if width(mask) == 12:
        # kind (2 bits), high (2 bits), low (8 bits)
        return sorted({k << 10 | h << 8 | lo for k in range(4) for h in (0, 1, 2, 3) for lo in (0, 1, 0x7F, 0x80, 0xFF)})
    return sorted({0, 1, n // 2 - 1, n // 2, n - 2, n - 1} & set(range(n)))


def field_words(fields):
    full = 0
    for mask, _ in fields.values():
        full |= mask
    out = set()
    for mask, _ in fields.values():
        for v in range(1 << width(mask)):
            out.add(put(v, mask))
            out.add(put(v, mask) | full & ~mask)
    for (m1, _), (m2, _) in itertools.combinations(fields.values(), 2):
        for a, b in itertools.product(edge_values(m1), edge_values(m2)):
            out.add(put(a, m1) | put(b, m2))
    return sorted(out)


def column1():
    out = {0, 0xFFFFFFFF}
    for i in range(32):
        out |= {1 << i, 0xFFFFFFFF ^ 1 << i}
        for k in range(i):
            out |= {1 << i | 1 << k, 0xFFFFFFFF ^ (1 << i | 1 << k)}
    return sorted(out)


_vec = []


def vectors():
    """Vectors of three words: each column's family beside varied words of the others."""
    if not _vec:
        c0, c1, c2 = field_words(F0), column1(), field_words(F2)
        n = max(len(c0), len(c1), len(c2))
        _vec.append((0, 0, 0))
        _vec.extend((c0[i % len(c0)], c1[(i * 7 + 3) % len(c1)], c2[(i * 5 + 1) % len(c2)]) for i in range(n))
    return _vec


def slot(i):
    """Where the i-th vector lies: even ones from the bottom, odd ones from the top of what
    a 16-bit index reaches."""
    return i if i % 2 == 0 else 21844 - i


def install_vectors(start):
    vs = vectors()
    image = tries.Utrie2Image(synth.blocks({start + i: 3 * slot(i) for i in range(len(vs))}), high_start=0x110000)
    common.unload()
    values = synth.trie2("propsVectorsTrie", image)
    rows = [(0xDEADBEEF, 0xBADC0DE5, 0x5EED5EED)] * 21845
    for i, v in enumerate(vs):
        rows[slot(i)] = v
    values.update(propsVectors=[w for v in rows for w in v], propsVectorsColumns=3, scriptExtensions=SCRIPTS)
    synth.rewrite("CharPropsData", values)
    return load("CharProps")


def script(w):
    v = get(w, 0x00F000FF)
    kind, code = v >> 10, v & 0x3FF
    return (code, 0, 1, SCRIPTS[code])[kind]


NAMED2 = {"isExtendedPictograph": 26, "isEmojiComponent": 27, "isEmoji": 28, "isEmojiPresentation": 29, "isEmojiModifier": 30, "isEmojiModifierBase": 31}


def expect(v):
    """[(expression, value)] for a vector."""
    a, b, d = v
    out = [("getScript({c})", script(a)), ("getBlock({c})", get(a, 0x1FF00)), ("getEastAsianWidth({c})", get(a, 0xE0000)),
           ("getAge({c})", [a >> 28, a >> 24 & 15, 0, 0]),
           ("getDecompType({c})", d & 31), ("getGraphemeClusterBreak({c})", d >> 5 & 31), ("getWordBreak({c})", d >> 10 & 31),
           ("getSentenceBreak({c})", d >> 15 & 31), ("getLineBreak({c})", d >> 20 & 63),
           ("isAlphabetic({c})", bool(b >> 8 & 1)), ("isUWhiteSpace({c})", bool(b & 1))]
    out += [(f"getBinaryProp({{c}}, {i})", bool(b >> i & 1)) for i in range(32)]
    out += [(f"getBinaryProp({{c}}, {i}, 2)", bool(d >> i & 1)) for i in range(26, 32)]
    out += [(f"{k}({{c}})", bool(d >> i & 1)) for k, i in NAMED2.items()]
    out += [(f"getUnicodeProperties({{c}}, {i})", v[i]) for i in range(3)]
    return out


def vecs(sub, start, part, parts):
    common.stage()
    m = install_vectors(start)
    names = {e.split("(")[0] for e, _ in expect((0, 0, 0))}
    for k in names:
        need(m, k)
    fns = [eval("lambda c: " + e.format(c="c"), dict(vars(m))) for e, _ in expect((0, 0, 0))]
    nv = n = seen = 0
    for i, v in list(enumerate(vectors()))[part::parts]:
        c = start + i
        seen += 1
        for (e, want), f in zip(expect(v), fns):
            n += 1
            try:
                got = f(c)
            except Exception as x:
                got = f"{type(x).__name__}: {x}"
            if got != want:
                nv += 1
                if nv < 8:
                    sub.violation(f"vector:{e}:{i}", f"{e.format(c=hex(c))} with the vector {[hex(x) for x in v]} is {got!r}, expected {want!r}",
                                  REPLAY.format(install=f"(common.unload(), c33.install_vectors({start:#x}))[1]", expr="m." + e.format(c=hex(c)), want=want, number=False))
                else:
                    sub.nviol += 1
    sub.count(states=seen, transitions=n, traces=1)
    if part == 0:
        sub.sample(f"vectors from U+{start:04X}: {[hex(x) for x in vectors()[5]]}")


def run(ctx):
    arr = [(1, 0), (0x6E35, 0x1234)]
    starts = [0x10400]
    if ctx.thorough:
        arr += [(2 * k * 977 + 1, k * 4099) for k in range(1, 15)]
        starts += [0, 0x800, 0xC000, 0xF000, 0x100000]
    step = 0x4000
    jobs = [("words", a, lo, lo + step) for n, a in enumerate(arr) for lo in range(0, 0x20000 if n == 0 else 0x10000, step)]
    jobs += [("vecs", s, p, 8) for s in starts for p in range(8)]
    vectors()
    common.parallel(ctx, _job, jobs)
    ctx.extra(words=65536, word_arrangements=len(arr) + 1, vectors=len(vectors()), vector_places=len(starts), accessors=len(PREDICATES) + 4 + len(expect((0, 0, 0))), exhaustive=True)
    ctx.cov["rule"] = ("state = (code point, properties word or vector) in tables written for the purpose; transition = one accessor call compared with "
                       "the format's definition; trace = one loaded set of tables")
    ctx.assumptions += ["vector fields: every value of one field with the others empty or full, and pairs of boundary values; not the whole product",
                        "general categories 30 and 31, which no table has, are left out"]


def _job(sub, kind, *a):
    (words if kind == "words" else vecs)(sub, *a)
