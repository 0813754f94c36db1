"""C38: the normalizers classify every character the way Unicode does.

Part A: the classification of every code point by each of the three normalizers
(getNorm16 and the predicates on its value) against tables derived from Unicode's quick
check, combining class, Hangul syllable type and composition properties.
Part B: the same predicates for every character of the synthetic normalization data of
C36, where thresholds, amounts of composition data and lead surrogate values differ.
"""
from .. import codespace, common
from ..common import load, need
from . import c36

DATA = "small"
TABLES = {"isDecompYes": "{t}:yes", "isMaybeOrNonZeroCC": "{t}:maybe", "isInert": "{t}:inert", "isHangulLV": "LV", "isHangulLVT": "LVT",
          "isJamoL": "jamoL", "isJamoVT": "jamoVT"}


def specs():
    m = load("Normalizer2")
    out = []
    for name in c36.NAMES:
        t = need(m, name)
        need(t, "getNorm16")
        for p, tab in TABLES.items():
            need(t, p)
            out.append((f"{name}.{p}", "norm:" + tab.format(t=name[:-4]), None,
                        f"lambda c, t=load('Normalizer2').{name}: bool(t.{p}(t.getNorm16(c)))"))
    return out


def expected(e, lead, room):
    """Predicate -> value for an entry of synthetic data (None: no entry)."""
    kind = "inert" if lead or e is None else e.kind if isinstance(e, c36.Fixed) else type(e).__name__
    res = {"isDecompYes": kind not in ("Entry", "Delta", "Hangul"),
           "isMaybeOrNonZeroCC": kind in ("maybe", "maybecc", "cc", "jamoVT"),
           "isInert": kind == "inert",
           "isHangulLV": kind == "Hangul" and not e.trail,
           "isHangulLVT": kind == "Hangul" and bool(e.trail),
           "isJamoL": kind == "jamoL", "isJamoVT": kind == "jamoVT"}
    if kind in ("yes", "last") and not room:        # without composition data there is no such value but Jamo L's
        del res["isJamoL"]
    if not res["isDecompYes"]:
        res["isDecompNoAlgorithmic"] = kind == "Delta"
    return res


REPLAY = '''from mc.checks import c36
fam = c36.families({thorough!r})
m = c36.install([fam[i] for i in {triple!r}])
t = m.{trie}
got = bool(t.{p}(t.getNorm16({c:#x})))
print(got, "expected", {want!r})
bad = got != {want!r}'''


def job(sub, thorough, part, parts):
    common.stage(b"")
    fam = c36.families(thorough)
    nv = 0
    for triple in c36.triples(thorough)[part::parts]:
        m = c36.install([fam[i] for i in triple])
        n = states = 0
        for name, i in zip(c36.NAMES, triple):
            t, D = need(m, name), fam[i]
            norm16 = need(t, "getNorm16")
            preds = {p: need(t, p) for p in list(TABLES) + ["isDecompNoAlgorithmic"]}
            asked = set(D.entries) | {0xD7FF, 0xD800, 0xD801, 0xDABC, 0xDBFF, 0, 0x10FFFF}
            edge = {x for c in list(D.entries)[:3000] for x in (c - 1, c + 1) if 0 <= x < 0x110000 and not 0xD800 <= x < 0xDC00}
            for c in sorted(asked | edge):
                e = D.entries.get(c)
                states += 1
                for p, want in expected(e, 0xD800 <= c < 0xDC00, D.yes > 1).items():
                    n += 1
                    try:
                        got = bool(preds[p](norm16(c)))
                    except Exception as x:
                        got = f"{type(x).__name__}: {x}"
                    if got != want:
                        nv += 1
                        if nv < 6:
                            sub.violation(f"classify:{name}:{triple}:{p}:{c:X}", f"{name}.{p} of U+{c:04X} with {e!r} is {got!r}, expected {want!r}",
                                          REPLAY.format(thorough=thorough, triple=triple, trie=name, p=p, c=c, want=want))
                        else:
                            sub.nviol += 1
        sub.count(states=states, transitions=n, traces=3)


def run(ctx):
    ctx.stage(DATA)
    codespace.check(ctx, specs())
    ts = c36.triples(ctx.thorough)
    parts = common.NCPU * 2
    common.parallel(ctx, job, [(ctx.thorough, p, parts) for p in range(parts)])
    ctx.extra(data_sets=len(ts), exhaustive=True)
    ctx.cov["rule"] = ("state = code point of the real data, or (character, entry) of synthetic data; transition = one predicate asked of a character's norm16 and "
                       "compared; trace = one sweep of one predicate, or one loaded synthetic data set")
