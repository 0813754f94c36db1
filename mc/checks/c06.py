"""C06: a UTrie2 lookup gives the value the trie was built with, for every code
point, and the error value outside the code space.

 1. identity tries: value(c) == c on a window of the code space that moves over
    all of it, so that any slip in addressing shows; every code point looked up
 2. the bounded family of tries with one or two non-null blocks: every block's
    first and last code point, all of the listed blocks and their neighbours
 3. the four tries of the package, against an independent block-wise expansion.
"""
from .. import common, tries, triefam
from ..common import load, need

OUT = [0x110000, 0x110001, 0x10FFFFF, 0x7FFFFFFF]


def identity_specs(thorough):
    """(window start, window stop, highStart): the window's blocks hold their own code points."""
    size = 0x30000 - 0x2000           # data offsets are 18 bit: BMP + window fit
    out = []
    for hs in ([0x110000, 0x100000, 0x10800, 0x10000] if not thorough else
               [0x110000, 0x10F800, 0x100000, 0xE0800, 0x20000, 0x11000, 0x10800, 0x10000]):
        a = 0x10000
        while a < hs:
            out.append((a, min(a + size, hs), hs))
            a += size
        if hs == 0x10000:
            out.append((hs, hs, hs))
    return out


def identity(spec, bmp=True):
    a, b, hs = spec
    blocks = {}
    for blk in list(range(0, 0x10000 >> 5)) + list(range(a >> 5, b >> 5)):
        blocks[blk] = tuple(range(blk * 32, blk * 32 + 32))
    return tries.Utrie2Image(blocks, null=-1, high=-2, error=-3, high_start=hs)


REPLAY_ID = '''from mc.checks import c06
im = c06.identity({spec!r})
t = im.make(load("Utrie2").UTrie2)
got = t.get({c:#x})
want = im.value({c:#x}) if {c:#x} < 0x110000 else im.error
print(got, want)
bad = got != want'''


def _identity(sub, spec, lo, hi):
    im = identity(spec)
    t = im.make(need(load("Utrie2"), "UTrie2"))
    nv = 0
    for order in (range(lo, hi), range(hi - 1, lo - 1, -1)):
        for c in order:
            try:
                got = t.get(c)
            except Exception as e:
                got = f"{type(e).__name__}: {e}"
            if c < 0x10000 or spec[0] <= c < spec[1]:
                want = c
            else:
                want = -2 if c >= spec[2] else -1
            if got != want:
                nv += 1
                if nv < 5:
                    sub.violation(f"identity:{spec}:{c:X}", f"lookup of U+{c:04X} in the identity trie {spec} gives {got}, expected {want}",
                                  REPLAY_ID.format(spec=spec, c=c))
        sub.count(transitions=hi - lo)
    for c in OUT:
        try:
            got = t.get(c)
        except Exception as e:
            got = f"{type(e).__name__}: {e}"
        sub.count(transitions=1)
        if got != -3:
            sub.violation(f"identity:{spec}:{c:X}", f"lookup of {c:X} (no code point) gives {got}, not the error value", REPLAY_ID.format(spec=spec, c=c))
    sub.count(states=1, traces=1)


REPLAY_FAM = '''from mc import triefam
spec = {spec!r}
im = triefam.u2_image(spec)
got = triefam.u2_make(spec).get({c:#x})
want = im.value({c:#x})
print(got, want)
bad = got != want'''

BASE = sorted({x for b in range(0, 0x110000, 0x800) for x in (b, b + 0x1F, b + 0x7FF)})


def _family(sub, specs):
    UTrie2 = need(load("Utrie2"), "UTrie2")
    for spec in specs:
        im = triefam.u2_image(spec)
        t = im.make(UTrie2)
        pts = set(BASE)
        for p, _, _ in spec[0]:
            pts.update(range(max(0, p - 40), min(0x110000, p + 72)))
        for c in sorted(pts):
            try:
                got = t.get(c)
            except Exception as e:
                got = f"{type(e).__name__}: {e}"
            if got != im.value(c):
                sub.violation(f"family:{spec}:{c:X}", f"lookup of U+{c:04X} in the trie {spec} gives {got}, expected {im.value(c)}",
                              REPLAY_FAM.format(spec=spec, c=c))
                break
        sub.count(states=1, transitions=len(pts), traces=1)


REAL = [("CharProps", "propsTrie", "CharPropsData", "propsTrie", "propsTrie_index"),
        ("CharProps", "propsVectorTrie", "CharPropsData", "propsVectorsTrie", "propsVectorsTrie_index"),
        ("BidiProps", "bidiPropsTrie", "BidiPropsData", "ubidi_props_trie", "ubidi_props_trieIndex"),
        ("CaseProps", "casePropsTrie", "CasePropsData", "ucase_props_trie", "ucase_props_trieIndex")]


def _real(sub, mod, name, dmod, prefix, arr):
    t, d = need(load(mod), name), load(dmod)
    if not all(hasattr(d, x) for x in (arr, prefix + "_index_length", prefix + "_high_start", prefix + "_high_value_index")):
        return                     # the data are laid out otherwise: C10..C18 still compare every value
    index = getattr(d, arr)
    length = need(d, prefix + "_index_length")
    ref = tries.expand_utrie2(index, length, need(d, prefix + "_high_start"), need(d, prefix + "_high_value_index"))
    nv = 0
    for order in (range(0x110000), range(0x10FFFF, -1, -1)):
        for c in order:
            try:
                got = t.get(c)
            except Exception as e:
                got = f"{type(e).__name__}: {e}"
            if got != ref[c]:
                nv += 1
                if nv < 5:
                    sub.violation(f"{name}:{c:X}", f"{mod}.{name}.get(U+{c:04X}) is {got}, its data say {ref[c]}",
                                  f"got = load({mod!r}).{name}.get({c:#x})\nprint(got)\nbad = got != {ref[c]}")
        sub.count(transitions=0x110000)
    for c in OUT:
        got = t.get(c)
        if got != index[length + 0x80]:
            sub.violation(f"{name}:{c:X}", f"{mod}.{name}.get({c:X}) is {got}, not the error value",
                          f"got = load({mod!r}).{name}.get({c:#x})\nbad = got != {index[length + 0x80]}")
    sub.count(states=1, traces=1)


def run(ctx):
    ctx.stage()
    jobs = []
    for s in identity_specs(ctx.thorough):
        for k in range(2):
            jobs.append((s, k * 0x88000, (k + 1) * 0x88000))
    common.parallel(ctx, _identity, jobs)
    kinds = [triefam.UNI, triefam.LAST, triefam.FIRST]
    specs = list(triefam.u2_specs(triefam.U2_POS, kinds if ctx.thorough else [triefam.LAST, triefam.FIRST], triefam.U2_HS,
                                  triefam.U2_VALUES if ctx.thorough else [(0, 9)]))
    n = common.NCPU * 4
    common.parallel(ctx, _family, [(specs[i::n],) for i in range(n)])
    common.parallel(ctx, _real, REAL)
    ctx.extra(tries_in_family=len(specs), identity_tries=len(jobs) // 2, exhaustive=True)
    ctx.cov["rule"] = "state = one trie; transition = one lookup; trace = one complete sweep compared with the mapping"
    ctx.sample({"identity trie": jobs[0]})
    ctx.sample({"family member": specs[len(specs) // 2]})
