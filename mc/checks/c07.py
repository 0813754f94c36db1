"""C07: enumerating a UTrie2 delivers exactly the maximal runs of equal values.

 1. bounded family of tries x windows, against the mapping they were built from
 2. the four tries of the package, whole range and windows around every change
    of value, against code-point-wise lookup (which C06 decides)
 3. value functions with arguments, against the reference tables of the whole
    code space.
"""
from .. import codespace, common, tries, triefam
from ..common import cpu_limit, load, need


def fdiv(v):
    return v // 4


def fodd(v):
    return (v & 1) == 1


def fnone(v):
    return None if v < 7 else v


def fkw(v, add, mod):
    return (v + add) % mod


FUNCS = [(None, {}), (fdiv, {}), (fodd, {}), (fnone, {}), (fkw, {"add": 3, "mod": 4})]

REPLAY = '''from mc import tries, triefam
from mc.checks import c07
spec = {spec!r}
f, kw = c07.FUNCS[{fi}]
t, im = triefam.u2_make(spec), triefam.u2_image(spec)
got = triefam.got_ranges(t, {a:#x}, {b:#x}, **({{"valueFunction": f, **kw}} if f else {{}}))
want = im.ranges({a:#x}, {b:#x}, (lambda v: f(v, **kw)) if f else None)
print(got, want, sep="\\n")
bad = got != want'''


def _family(sub, specs, funcs, limit):
    UTrie2 = need(load("Utrie2"), "UTrie2")
    for spec in specs:
        im = triefam.u2_image(spec)
        t = im.make(UTrie2)
        sub.count(states=1)
        cur = None
        try:
            with cpu_limit(limit, "enumeration"):
                for fi in funcs:
                    f, kw = FUNCS[fi]
                    args = {"valueFunction": f, **kw} if f else {}
                    ef = (lambda v: f(v, **kw)) if f else None
                    ws = triefam.windows(spec[0], spec[3], 32) if fi == 0 else [(0, 0x110000)]
                    for a, b in ws:
                        cur = (a, b, fi)
                        got = triefam.got_ranges(t, a, b, **args)
                        want = im.ranges(a, b, ef)
                        sub.count(transitions=len(got), traces=1)
                        if got != want:
                            sub.violation(f"family:{spec}:{a:X}:{b:X}:{fi}",
                                          f"enumerating [{a:X}, {b:X}) of the trie {spec} gives {got[:6]}..., expected {want[:6]}...",
                                          REPLAY.format(spec=spec, a=a, b=b, fi=fi))
        except common.Hang as e:
            sub.violation(f"hang:{spec}:{cur}", f"enumeration {cur} of the trie {spec} does not end: {e}",
                          REPLAY.format(spec=spec, a=cur[0], b=cur[1], fi=cur[2]))
        except Exception as e:
            sub.violation(f"exception:{spec}:{cur}", f"enumeration {cur} of the trie {spec} raised {type(e).__name__}: {e}",
                          REPLAY.format(spec=spec, a=cur[0], b=cur[1], fi=cur[2]))


REAL = [("CharProps", "propsTrie"), ("CharProps", "propsVectorTrie"), ("BidiProps", "bidiPropsTrie"), ("CaseProps", "casePropsTrie")]
_real = {}


def runs(vals, start, limit):
    out = []
    p = start
    for c in range(start + 1, limit):
        if vals[c] != vals[p]:
            out.append((p, c, vals[p]))
            p = c
    if p < limit:
        out.append((p, limit, vals[p]))
    return out


REPLAY_REAL = '''from mc import triefam
from mc.checks import c07
t = load({mod!r}).{name}
vals = {{c: t.get(c) for c in range({a:#x}, {b:#x})}}
got = triefam.got_ranges(t, {a:#x}, {b:#x})
want = c07.runs(vals, {a:#x}, {b:#x})
print(got[:20], want[:20], sep="\\n")
bad = got != want'''


def _real_windows(sub, mod, name, changes, lengths):
    t = need(load(mod), name)
    vals = _real[name]
    with cpu_limit(300, f"enumerating windows of {name}"):
        for p in changes:
            for d, n in lengths:
                a = max(0, p + d)
                b = min(0x110000, a + n)
                got = triefam.got_ranges(t, a, b)
                sub.count(transitions=len(got), traces=1)
                if got != runs(vals, a, b):
                    sub.violation(f"{name}:{a:X}:{b:X}", f"enumerating [{a:X}, {b:X}) of {mod}.{name} gives {got[:6]}, expected {runs(vals, a, b)[:6]}",
                                  REPLAY_REAL.format(mod=mod, name=name, a=a, b=b))


# (label, module, trie, value function, arguments, reference table, required)
TABLES = [
    ("gc", "CharProps", "propsTrie", "generalCategoryFromProps", {}),
    ("nt", "CharProps", "propsTrie", "numericTypeFromProps", {}),
    ("nv", "CharProps", "propsTrie", "numericValueFromProps", {}),
    ("blk", "CharProps", "propsVectorTrie", "blockFromVecIndex", {}),
    ("sc", "CharProps", "propsVectorTrie", "scriptFromVecIndex", {}),
    ("ea", "CharProps", "propsVectorTrie", "eastAsianWidthFromVecIndex", {}),
    ("lb", "CharProps", "propsVectorTrie", "lineBreakFromVecIndex", {}),
    ("SB", "CharProps", "propsVectorTrie", "sentenceBreakFromVecIndex", {}),
    ("WB", "CharProps", "propsVectorTrie", "wordBreakFromVecIndex", {}),
    ("GCB", "CharProps", "propsVectorTrie", "graphemeClusterBreakFromVecIndex", {}),
    ("dt", "CharProps", "propsVectorTrie", "decompTypeFromVecIndex", {}),
    ("bin1:ALPHABETIC", "CharProps", "propsVectorTrie", "binaryPropFromVecIndex", {"propShift": "UPROPS_ALPHABETIC", "column": 1}),
    ("bin2:EMOJI", "CharProps", "propsVectorTrie", "binaryPropFromVecIndex", {"propShift": "UPROPS_2_EMOJI", "column": 2}),
    ("bc", "BidiProps", "bidiPropsTrie", "getClassFromProps", {}),
]


def _table(sub, tab, mod, trie, fn, kw):
    m = load(mod)
    f = getattr(m, fn, None)
    if f is None:
        return                     # not one of the documented entry points
    kw = {k: getattr(m, v) if isinstance(v, str) else v for k, v in kw.items()}
    want, p = [], 0
    for n, v in codespace.tables()[tab]:
        want.append((p, p + n, v))
        p += n
    with cpu_limit(120, f"enumerating {trie}"):
        got = triefam.got_ranges(need(m, trie), 0, 0x110000, valueFunction=f, **kw)
        sub.count(transitions=len(got), traces=1)
        for i, (g, w) in enumerate(zip(got + [None] * len(want), want + [None] * len(got))):
            if g != w:
                sub.violation(f"table:{tab}:{i}", f"enumerating {mod}.{trie} through {fn}: range {i} is {g}, the reference has {w}",
                              "from mc.checks import c07\nfrom mc import common\n"
                              f"s = common.Ctx('C07', 'quick', 1)\nc07._table(s, *{(tab, mod, trie, fn)!r}, {kw!r})\nbad = s.nviol")
                break
        # the same through windows that start or end at every boundary
        for a, b, v in want:
            for x, y in ((a, b), (max(0, a - 1), min(0x110000, a + 1))):
                g = triefam.got_ranges(m.__dict__[trie], x, y, valueFunction=f, **kw)
                w = [(a, b, v)] if (x, y) == (a, b) else None
                sub.count(transitions=len(g), traces=1)
                if w is not None and g != w:
                    sub.violation(f"table:{tab}:{x:X}", f"enumerating [{x:X}, {y:X}) of {mod}.{trie} through {fn} gives {g}, the reference has {w}")
                elif w is None and (not g or g[0][0] != x or g[-1][1] != y or (x < a and len(g) != 2)):
                    sub.violation(f"table:{tab}:{x:X}", f"enumerating [{x:X}, {y:X}) of {mod}.{trie} through {fn} gives {g}")


def run(ctx):
    ctx.stage()
    hss = triefam.U2_HS if ctx.thorough else [0x800, 0x10000, 0x10800, 0x18000, 0x110000]
    values = triefam.U2_VALUES if ctx.thorough else [(0, 9), (7, 5)]
    kinds = [triefam.UNI, triefam.LAST, triefam.FIRST]
    specs = list(triefam.u2_specs(triefam.U2_POS, kinds, hss, values))
    if not ctx.thorough:
        specs = [s for s in specs if len(s[0]) < 2 or s[0][0][1] != s[0][1][1] or s[0][0][1] == triefam.UNI]
    funcs = [0, 1, 2, 3, 4]
    try:
        specs, limit = triefam.pace(ctx, triefam.u2_make, specs)
    except common.Hang as e:
        return ctx.violation("hang", f"enumerating a trie does not end: {e}")
    n = common.NCPU * 6
    common.parallel(ctx, _family, [(specs[i::n], funcs, limit) for i in range(n)])
    ctx.extra(tries_in_family=len(specs))
    jobs = []
    lengths = [(-1, 1), (-1, 2), (0, 1), (0, 33), (-33, 66), (-1, 2100)] if ctx.thorough else [(-1, 2), (0, 1), (-33, 66)]
    for mod, name in REAL:
        t = need(load(mod), name)
        vals = _real[name] = [t.get(c) for c in range(0x110000)]
        want = runs(vals, 0, 0x110000)
        with cpu_limit(60, f"enumerating {name}"):
            got = triefam.got_ranges(t, 0, 0x110000)
        ctx.count(states=1, transitions=len(got), traces=1)
        if got != want:
            i = next((i for i, (g, w) in enumerate(zip(got, want)) if g != w), min(len(got), len(want)))
            ctx.violation(f"{name}:full", f"enumerating {mod}.{name}: range {i} is {got[i:i+1]}, lookup says {want[i:i+1]}",
                          REPLAY_REAL.format(mod=mod, name=name, a=0, b=0x110000))
        changes = [a for a, b, v in want]
        changes += list(range(0, 0x110000, 0x800)) + [0xD800, 0xDC00, 0xE000]
        changes = sorted(set(changes))
        k = 12
        jobs += [(mod, name, changes[i::k], lengths) for i in range(k)]
    common.parallel(ctx, _real_windows, jobs)
    codespace.tables()
    common.parallel(ctx, _table, [tuple(x) for x in TABLES])
    ctx.cov["rule"] = ("state = one trie (a member of the family or one of the package's four); transition = one range delivered; "
                       "trace = one complete enumeration of a window, compared with the mapping")
    ctx.cov["exhaustive"] = True
    ctx.sample({"trie": specs[len(specs) // 2], "windows": triefam.windows(specs[len(specs) // 2][0], specs[len(specs) // 2][3], 32)[:6]})
    ctx.assumptions += ["tries have at most two non-null blocks outside the package's own; block contents: " + ", ".join(kinds + [triefam.MIX])]
