"""C26: UTF-16 and bit arithmetic, over their complete domains.

Surrogate pairs: every lead x trail pair and back for every supplementary code
point; classification: every value to 0x11FFFF (and 32-bit patterns around);
noncharacters: every code point and beyond; arithmeticShift: every word of every
width to 12 bits (thorough 16) x every field width; highBit: every value below
2^20, every value with at most three bits set of 64, and the runs 2^i - 2^j.
"""
import itertools

from .. import common
from ..common import load, need

MAX = 12




def fail(sub, expr, got, want):
    sub.violation(expr, f"{expr} is {got!r}, expected {want!r}",
                  f"U = load('Utilities')\ngot = U.{expr}\nprint(repr(got))\nbad = (got if got is None or not isinstance(got, bool) else bool(got)) != {want!r}")


def limited(sub, it, n):
    """Report what the generator yields, at most n times."""
    k = 0
    for expr, got, want in it:
        fail(sub, expr, got, want)
        k += 1
        if k >= n:
            break


def pairs(sub, lo, hi):
    U = load("Utilities")
    f = need(U, "charFromSurrogates")
    g = need(U, "surrogatesFromChar")
    c = 0x10000 + (lo - 0xD800) * 0x400
    bad = 0
    for lead in range(lo, hi):
        for trail in range(0xDC00, 0xE000):
            r = f(lead, trail)
            if r != c:
                fail(sub, f"charFromSurrogates({lead:#x}, {trail:#x})", r, c)
                bad += 1
            r = tuple(g(c))
            if r != (lead, trail):
                fail(sub, f"surrogatesFromChar({c:#x})", r, (lead, trail))
                bad += 1
            c += 1
            if bad > 3:
                return
    sub.count(states=(hi - lo) * 0x400, transitions=2 * (hi - lo) * 0x400, traces=1)


def classes(sub, lo, hi):
    U = load("Utilities")
    fs = [(n, need(U, n), w) for n, w in (
        ("isSurrogate", lambda c: 0xD800 <= c <= 0xDFFF), ("isLead", lambda c: 0xD800 <= c <= 0xDBFF), ("isTrail", lambda c: 0xDC00 <= c <= 0xDFFF),
        ("isUnicodeNoncharacter", lambda c: 0xFDD0 <= c <= 0xFDEF or (c <= 0x10FFFF and c % 0x10000 >= 0xFFFE)))]
    for n, f, w in fs:
        k = 0
        for c in range(lo, hi):
            r = f(c)
            if bool(r) != w(c):
                fail(sub, f"{n}({c:#x})", r, w(c))
                k += 1
                if k > 2:
                    break
    sub.count(states=hi - lo, transitions=4 * (hi - lo), traces=1)
    # these two are only defined for surrogates
    a, b = max(lo, 0xD800), min(hi, 0xE000)
    L, T = need(U, "isSurrogateLead"), need(U, "isSurrogateTrail")
    for c in range(a, b):
        for n, f, w in (("isSurrogateLead", L, c < 0xDC00), ("isSurrogateTrail", T, c >= 0xDC00)):
            r = f(c)
            if bool(r) != w:
                fail(sub, f"{n}({c:#x})", r, w)
    sub.count(transitions=2 * max(0, b - a))


def shifts(sub, words):
    U = load("Utilities")
    f = need(U, "arithmeticShift")

    def gen():
        for w in words:
            for field in range(1, w + 1):
                for v in range(1 << w):
                    signed = v - (1 << w) if v >> (w - 1) else v
                    want = signed >> (w - field)
                    got = f(v, w, field)
                    if got != want:
                        yield f"arithmeticShift({v:#x}, {w}, {field})", got, want
                sub.count(states=1 << w, transitions=1 << w)
    limited(sub, gen(), 4)
    sub.count(traces=len(words))


def wide_shifts(sub):
    """16- and 32-bit words: all values with at most three bits set or clear."""
    f = need(load("Utilities"), "arithmeticShift")

    def gen():
        for w in (13, 14, 15, 16, 24, 32, 64):
            full = (1 << w) - 1
            vs = set()
            for k in range(4 if w <= 32 else 3):
                for bits in itertools.combinations(range(w), k):
                    v = sum(1 << b for b in bits)
                    vs.update((v, full ^ v))
            for field in range(1, w + 1):
                if w > 16 and field not in (1, 2, 3, 7, 8, 13, 16, w - 1, w):
                    continue
                for v in vs:
                    signed = v - (1 << w) if v >> (w - 1) else v
                    got = f(v, w, field)
                    if got != signed >> (w - field):
                        yield f"arithmeticShift({v:#x}, {w}, {field})", got, signed >> (w - field)
                sub.count(states=len(vs), transitions=len(vs))
    limited(sub, gen(), 4)
    sub.count(traces=7)


def highbits(sub, thorough):
    f = need(load("Utilities"), "highBit")

    def values():
        yield from range(1 << (22 if thorough else 20))
        for k in (1, 2, 3) if not thorough else (1, 2, 3, 4):
            for bits in itertools.combinations(range(64), k):
                yield sum(1 << b for b in bits)
        for i in range(65):
            for j in range(i + 1):
                yield (1 << i) - (1 << j)

    def gen():
        n = 0
        for v in values():
            n += 1
            got = f(v)
            want = v.bit_length() - 1 if v else None
            if got != want or (v and got is None):
                yield f"highBit({v:#x})", got, want
        sub.count(states=n, transitions=n, traces=1)
    limited(sub, gen(), 4)


def listing(sub):
    f = getattr(load("Utilities"), "listOfCodes", None)
    if f is None:
        return
    pool = [0, 0x41, 0xFFF, 0x1000, 0xFFFF, 0x10000, 0x10FFFF]
    n = 0
    for k in range(4):
        for cs in itertools.product(pool, repeat=k):
            n += 1
            want = ", ".join("%04X" % c for c in cs)
            got = f(list(cs))
            if got != want:
                fail(sub, f"listOfCodes({list(cs)!r})", got, want)
                return
    sub.count(states=n, transitions=n, traces=1)


def _job(sub, name, *a):
    globals()[name](sub, *a)


def run(ctx):
    ctx.stage()
    load("Utilities")
    jobs = [("pairs", 0xD800 + i * 128, 0xD800 + (i + 1) * 128) for i in range(8)]
    jobs += [("classes", i * 0x24000, (i + 1) * 0x24000) for i in range(8)]
    jobs += [("classes", 0xFFFFF000, 0x100000000)]
    top = 16 if ctx.thorough else MAX
    jobs += [("shifts", [w]) for w in range(top, 0, -1)] + [("wide_shifts",), ("highbits", ctx.thorough), ("listing",)]
    common.parallel(ctx, _job, jobs)
    ctx.extra(exhaustive=True)
    ctx.cov["rule"] = "state = one argument tuple; transition = one call; trace = one function's sweep over one slice of its domain"
    ctx.sample({"pair": "charFromSurrogates(0xdbff, 0xdfff)"})
    ctx.sample({"shift": "arithmeticShift(0x800, 12, 5)"})
    ctx.assumptions += ["isSurrogateLead/isSurrogateTrail are asked about surrogates only; arithmeticShift about words below 2^bitsInWord; highBit about values below 2^64"]
