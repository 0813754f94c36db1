"""C21: character names of the real names data, every code point.

getCharName against the reference for every code point and name choice (two
sweeps), nameIterator as the complete ordered listing, charFromName as its
inverse (thorough: every name; quick: all aliases and one of every 16 names; every
name of every shape on the synthetic tables of C22), strings that are no name.
"""
import json

from .. import codespace, common
from ..common import cpu_limit, load, need

CATS = ["unassigned", "uppercase letter", "lowercase letter", "titlecase letter", "modifier letter", "other letter", "non spacing mark",
        "enclosing mark", "combining spacing mark", "decimal digit number", "letter number", "other number", "space separator",
        "line separator", "paragraph separator", "control", "format", "private use area", "surrogate", "dash punctuation",
        "start punctuation", "end punctuation", "connector punctuation", "other punctuation", "math symbol", "currency symbol",
        "modifier symbol", "other symbol", "initial punctuation", "final punctuation", "noncharacter", "lead surrogate", "trail surrogate"]
ALG = [(0x3400, 0x4DBF), (0x4E00, 0x9FFF), (0xAC00, 0xD7A3), (0x17000, 0x187F7), (0x18D00, 0x18D08), (0x20000, 0x2A6DF), (0x2A700, 0x2B739),
       (0x2B740, 0x2B81D), (0x2B820, 0x2CEA1), (0x2CEB0, 0x2EBE0), (0x2EBF0, 0x2EE5D), (0x30000, 0x3134A), (0x31350, 0x323AF)]
_names = {}
_gc = []


def extended(c):
    if 0xFDD0 <= c <= 0xFDEF or c & 0xFFFE == 0xFFFE:
        cat = 30
    elif 0xD800 <= c < 0xDC00:
        cat = 31
    elif 0xDC00 <= c < 0xE000:
        cat = 32
    else:
        cat = _gc[c]
    return f"<{CATS[cat]}-{c:04X}>"


def _sweep(sub, lo, hi, down):
    CN = load("CharNames").CharNames
    # choices: 0 name, 1 Unicode 1.0 name (always empty), 2 extended, 3 alias, 4 ISO comment (always empty)
    nv = 0
    for c in range(hi - 1, lo - 1, -1) if down else range(lo, hi):
        nm = _names["name"].get(c, "")
        alg = any(a <= c <= b for a, b in ALG)
        want = (nm, "", nm if alg else extended(c), _names["alias"].get(c, ""), "")
        for ch in (4, 3, 2, 1, 0) if down else (0, 1, 2, 3, 4):
            try:
                got = CN.getCharName(c, ch)
            except Exception as e:
                got = f"{type(e).__name__}: {e}"
            if got != want[ch]:
                nv += 1
                if nv < 6:
                    sub.violation(f"name:{c:X}:{ch}", f"getCharName(U+{c:04X}, {ch}) is {got!r}, expected {want[ch]!r}",
                                  f"got = load('CharNames').CharNames.getCharName({c:#x}, {ch})\nprint(repr(got))\nbad = got != {want[ch]!r}")
    sub.count(states=0 if down else hi - lo, transitions=5 * (hi - lo), traces=1)


def _iterate(sub, choice, label):
    CN = load("CharNames").CharNames
    want = sorted(_names[label].items()) if label in _names else None
    with cpu_limit(120, "nameIterator"):
        got = list(CN.nameIterator(choice))
    sub.count(transitions=len(got), traces=1)
    if want is None:                      # a choice without names of its own
        want = []
    if got != want:
        i = next((i for i, (g, w) in enumerate(zip(got, want)) if g != w), min(len(got), len(want)))
        sub.violation(f"iterator:{choice}", f"nameIterator({choice}): item {i} of {len(got)} is {got[i:i+1]}, expected {want[i:i+1]} of {len(want)}",
                      "from mc.checks import c21\nfrom mc import common\ns = common.Ctx('C21', 'quick', 1)\nc21.prepare()\n"
                      f"c21._iterate(s, {choice}, {label!r})\nbad = s.nviol")


def _reverse(sub, items, choice):
    CN = load("CharNames").CharNames
    for name, want in items:
        got = CN.charFromName(name, choice)
        sub.count(transitions=1, traces=1)
        if got != want:
            sub.violation(f"reverse:{name}:{choice}", f"charFromName({name!r}, {choice}) is {got!r}, expected {want:#x}",
                          f"got = load('CharNames').CharNames.charFromName({name!r}, {choice})\nprint(repr(got))\nbad = got != {want:#x}")


def reverse_names(inv, everything):
    """The names looked up in reverse: thorough, every name there is; quick, one of every
    16 outside the algorithmic ranges (another of the 16 each time), the first and last of
    every range, a syllable of every initial, vowel and final, the longest and shortest
    names, and names that are the beginning of others."""
    items = sorted((c, n) for n, c in inv.items())
    if everything:
        return [(n, c) for c, n in items]
    pick = {}
    by = {}
    for c, n in items:
        r = next((r for r in ALG if r[0] <= c <= r[1]), None)
        by.setdefault(r or c >> 4, []).append(c)
    for k, cs in by.items():
        for c in (cs[0], cs[len(cs) // 2 + 1], cs[-1]) if isinstance(k, tuple) else (cs[k * 5 % len(cs)],):
            pick[c] = None
    for k in range(28):
        pick[0xAC00 + (k % 19) * 588 + (k % 21) * 28 + k] = None
    plain = [(c, n) for c, n in items if not any(a <= c <= b for a, b in ALG)]
    plain.sort(key=lambda x: (len(x[1]), x[1]))
    for c, n in plain[:20] + plain[-20:]:
        pick[c] = None
    plain.sort(key=lambda x: x[1])
    k = 0
    for (c, n), (d, m) in zip(plain, plain[1:]):
        if m.startswith(n):
            k += 1
            if k % 16 == 0:
                pick[c] = pick[d] = None
    return [(inv_n, c) for c, inv_n in items if c in pick]


def prepare():
    d = json.loads(common.read_data("names.json.xz"))
    for k in d:
        _names[k] = {int(c, 16): v for c, v in d[k].items()}
    _gc[:] = codespace.expand("gc")


def run(ctx):
    ctx.stage("small")
    prepare()
    CN = need(load("CharNames"), "CharNames")
    step = 0x110000 // 32
    common.parallel(ctx, _sweep, [(lo, lo + step, d) for d in (False, True) for lo in range(0, 0x110000, step)])
    common.parallel(ctx, _iterate, [(0, "name"), (3, "alias"), (1, None), (4, None)])
    inv = {}
    for c, n in sorted(_names["name"].items()):
        inv.setdefault(n, c)
    aliases = {}
    for c, n in sorted(_names["alias"].items()):
        aliases.setdefault(n, c)
    pick = reverse_names(inv, ctx.thorough)
    miss = [(n, 0xFFFFFFFF) for n in ("NO SUCH CHARACTER", "LATIN CAPITAL LETTER", "CJK UNIFIED IDEOGRAPH-FFFF", "SPACES", "PACE", " SPACE", "space",
                                      "CJK UNIFIED IDEOGRAPH-4e00", "CJK UNIFIED IDEOGRAPH-", "CJK UNIFIED IDEOGRAPH-04E00", "HANGUL SYLLABLE ", "HANGUL SYLLABLE GAGA",
                                      "HANGUL SYLLABLE", "VARIATION SELECTOR-257", "VARIATION SELECTOR-0", "<control-0000>", "NULL", "LATIN  SMALL LETTER A")]
    jobs = [(pick[i::n], 0) for n in [512 if ctx.thorough else 128] for i in range(n)] + [(list(aliases.items()), 3), (miss, 0)]
    common.parallel(ctx, _reverse, jobs)
    ctx.extra(names=len(_names["name"]), reverse_lookups=len(pick) + len(aliases), exhaustive=True)
    ctx.cov["rule"] = "state = code point; transition = one name looked up, listed or reversed; trace = one sweep or listing compared completely"
    ctx.sample({"U+1F600": CN.getCharName(0x1F600)})
    ctx.sample({"first/last reverse lookup": [pick[0], pick[-1]]})
