"""C09: enumerating a CPTrie delivers exactly the maximal runs of equal values.

 1. bounded family of tries (type x layout x highStart x values x blocks) x
    windows, against the mapping they were built from
 2. the tries of the package and of the staged ICU data file (canonical
    normalization data, layout data), whole range and windows around every
    change of value, against code-point-wise lookup (which C08 decides).
"""
from .. import common, tries, triefam
from ..common import cpu_limit, load, need
from .c07 import runs

REPLAY = '''from mc import triefam
spec = {spec!r}
t, im = triefam.cp_make(spec), triefam.cp_image(spec)
got = triefam.got_ranges(t, {a:#x}, {b:#x})
want = im.ranges({a:#x}, {b:#x})
print(got, want, sep="\\n")
bad = got != want'''


def _family(sub, specs, limit):
    CPTrie = need(load("CPTrie"), "CPTrie")
    for spec in specs:
        im = triefam.cp_image(spec)
        t = im.make(CPTrie)
        sub.count(states=1)
        cur = (0, 0)
        try:
            with cpu_limit(limit, "enumeration"):
                for a, b in triefam.windows(spec[0], spec[3], 16):
                    cur = (a, b)
                    got = triefam.got_ranges(t, a, b)
                    want = im.ranges(a, b)
                    sub.count(transitions=len(got), traces=1)
                    if got != want:
                        sub.violation(f"family:{spec}:{a:X}:{b:X}",
                                      f"enumerating [{a:X}, {b:X}) of the trie {spec} gives {got[:6]}..., expected {want[:6]}...",
                                      REPLAY.format(spec=spec, a=a, b=b))
        except common.Hang as e:
            sub.violation(f"hang:{spec}:{cur}", f"enumeration {cur} of the trie {spec} does not end: {e}", REPLAY.format(spec=spec, a=cur[0], b=cur[1]))
        except Exception as e:
            sub.violation(f"exception:{spec}:{cur}", f"enumeration {cur} of the trie {spec} raised {type(e).__name__}: {e}",
                          REPLAY.format(spec=spec, a=cur[0], b=cur[1]))


REAL = [("Normalizer2", "nfcTrie.trie"), ("Normalizer2", "nfkcTrie.trie"), ("Normalizer2", "nfkc_cfTrie.trie"),
        ("LayoutProps", "inpcTrie"), ("LayoutProps", "inscTrie"), ("LayoutProps", "voTrie")]
_vals = {}


def get(mod, path):
    o = load(mod)
    for p in path.split("."):
        o = getattr(o, p, None)
    return o


REPLAY_REAL = '''from mc import triefam
from mc.checks import c07
t = load({mod!r}).{name}
vals = {{c: t.get(c) for c in range({a:#x}, {b:#x})}}
got = triefam.got_ranges(t, {a:#x}, {b:#x})
want = c07.runs(vals, {a:#x}, {b:#x})
print(got[:20], want[:20], sep="\\n")
bad = got != want'''


def _windows(sub, mod, name, changes, lengths):
    t, vals = get(mod, name), _vals[name]
    with cpu_limit(300, f"enumerating windows of {name}"):
        for p in changes:
            for d, n in lengths:
                a = max(0, p + d)
                b = min(0x110000, a + n)
                got = triefam.got_ranges(t, a, b)
                want = runs(vals, a, b)
                sub.count(transitions=len(got), traces=1)
                if got != want:
                    sub.violation(f"{name}:{a:X}:{b:X}", f"enumerating [{a:X}, {b:X}) of {mod}.{name} gives {got[:6]}, expected {want[:6]}",
                                  REPLAY_REAL.format(mod=mod, name=name, a=a, b=b))


def specs(thorough):
    kinds = [triefam.UNI, triefam.LAST, triefam.FIRST]
    hss = (lambda ty: triefam.CP_HS[ty]) if thorough else (lambda ty: [triefam.CP_HS[ty][i] for i in (0, 1, 2, 4)])
    out = list(triefam.cp_specs(kinds, hss, triefam.U2_VALUES if thorough else [(0, 9), (7, 5)], triefam.CP_LAYOUT))
    if not thorough:
        out = [s for s in out if len(s[0]) < 2 or s[0][0][1] != s[0][1][1] or s[0][0][1] == triefam.UNI]
        # the pair members that straddle both kinds of index, for every layout; the others for the ordinary one
        out = [s for s in out if len(s[0]) < 2 or s[5] == (1, 1, 0, 0) or (s[0][1][0] >= 0x1000 and s[0][0][1] == triefam.UNI)]
    return out


def run(ctx):
    ctx.stage("small")
    sp = specs(ctx.thorough)
    try:
        sp, limit = triefam.pace(ctx, triefam.cp_make, sp)
    except common.Hang as e:
        return ctx.violation("hang", f"enumerating a trie does not end: {e}")
    n = common.NCPU * 8
    common.parallel(ctx, _family, [(sp[i::n], limit) for i in range(n)])
    ctx.extra(tries_in_family=len(sp))
    jobs = []
    lengths = [(-1, 1), (-1, 2), (0, 1), (0, 17), (-17, 34), (-1, 2100)] if ctx.thorough else [(-1, 2), (0, 1), (-33, 66)]
    for mod, name in REAL:
        t = get(mod, name)
        if t is None:
            continue
        vals = _vals[name] = [t.get(c) for c in range(0x110000)]
        want = runs(vals, 0, 0x110000)
        with cpu_limit(60, f"enumerating {name}"):
            got = triefam.got_ranges(t, 0, 0x110000)
        ctx.count(states=1, transitions=len(got), traces=1)
        if got != want:
            i = next((i for i, (g, w) in enumerate(zip(got, want)) if g != w), min(len(got), len(want)))
            ctx.violation(f"{name}:full", f"enumerating {mod}.{name}: range {i} is {got[i:i+1]}, lookup says {want[i:i+1]}",
                          REPLAY_REAL.format(mod=mod, name=name, a=0, b=0x110000))
        changes = sorted({a for a, b, v in want} | set(range(0, 0x110000, 0x200)) | {0xD800, 0xDC00, 0xE000})
        k = 8
        jobs += [(mod, name, changes[i::k], lengths) for i in range(k)]
    common.parallel(ctx, _windows, jobs)
    ctx.cov["rule"] = ("state = one trie (a member of the family or a real one); transition = one range delivered; "
                       "trace = one complete enumeration of a window, compared with the mapping")
    ctx.cov["exhaustive"] = True
    ctx.sample({"trie": sp[len(sp) // 2], "windows": triefam.windows(sp[len(sp) // 2][0], sp[len(sp) // 2][3], 16)[:6]})
    ctx.assumptions += ["family tries have at most two non-null blocks; block contents: uniform, last differs, first differs, all differ"]
