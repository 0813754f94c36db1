"""C31: answers do not depend on what was asked before, nor on what is being listed.

 1. for every accessor: every representative as the very first question of a process
    (forked from the freshly imported package), then every other one, then the first again
 2. for every accessor: every pair (thorough: every triple) of representatives in sequence;
    results that can be changed are changed before the next question
 3. every ordered pair of accessors, on pairs of code points
 4. for every accessor: every length K of a run of different questions up to a bound (and
    about the powers of two beyond it), asked twice over and then backwards: whatever
    number of answers a memory keeps, it is filled, gone round and re-read; then
    sweeps of the code space (quick: its first 0x20000) downwards and in a strided order
 5. for every accessor: questions outside its domain (their answers ignored) before and
    between valid ones
 6. names: every ordered pair of (lookup, name choice) with every choice
 7. listings (tries, names, sets): every interleaving of two listings and a third
    activity (lookups), every place to abandon a listing, a listing within a listing.
"""
import itertools
import json
import os
import pickle

from .. import accessors, common
from ..common import cpu_limit, load, need

_acc = []
_reps = {}


def spoil(v):
    """Change a result that can be changed."""
    if isinstance(v, list):
        v[:] = ["spoiled"]
    elif isinstance(v, dict):
        v.clear()
    elif isinstance(v, set):
        v.clear()
    elif isinstance(v, bytearray):
        v[:] = b""


def ask(a, c):
    try:
        v = a.fn(c)
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    w = v[:] if isinstance(v, list) else v
    spoil(v)
    return w


def replay(hist):
    """hist: [(accessor expression, code point, expected)]"""
    return ("def spoil(v):\n    if isinstance(v, list): v[:] = ['spoiled']\nbad = False\n"
            + "".join(f"v = {e.format(c=hex(c))}\nprint({e.format(c=hex(c))!r}, repr(v))\nbad |= v != {w!r}\nspoil(v)\n" for e, c, w in hist))


def first(sub, i, reps):
    a = _acc[i]
    nv = 0
    for c in reps:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                got = [(x, ask(a, x)) for x in [c] + [x for x in reps if x != c] + [c]]
                with os.fdopen(w, "wb") as f:
                    f.write(pickle.dumps(got))
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            blob = f.read()
        os.waitpid(pid, 0)
        got = pickle.loads(blob) if blob else [(c, "the process ended")]
        sub.count(states=1, transitions=len(got), traces=1)
        for k, (x, v) in enumerate(got):
            if v != a.ref[x]:
                nv += 1
                if nv < 4:
                    sub.violation(f"first:{a.label}:{c:X}:{x:X}",
                                  f"{a.label}: U+{x:04X} after {[hex(y) for y, _ in got[:k]][:5]} gives {v!r}, expected {a.ref[x]!r}",
                                  replay([(a.expr, y, a.ref[y]) for y, _ in got[:k + 1]]))
                break


def pairs(sub, i, depth):
    a = _acc[i]
    reps = _reps[i]
    ref = a.ref
    nv = 0
    n = 0
    for seq in itertools.product(reps, repeat=depth):
        for k, c in enumerate(seq + (seq[0],)):
            n += 1
            v = ask(a, c)
            if v != ref[c]:
                nv += 1
                if nv < 4:
                    sub.violation(f"seq:{a.label}:" + ",".join(f"{x:X}" for x in seq),
                                  f"{a.label}: U+{c:04X} after {[hex(x) for x in seq[:k]]} gives {v!r}, expected {ref[c]!r}",
                                  replay([(a.expr, x, ref[x]) for x in seq[:k + 1]]))
                break
    sub.count(states=len(reps) ** depth, transitions=n, traces=len(reps) ** depth)


def cross(sub, part, parts, reps):
    nv = 0
    for k, (a, b) in enumerate(itertools.product(_acc, _acc)):
        if k % parts != part:
            continue
        for c, d in itertools.product(reps, reps):
            for f, x in ((a, c), (b, d)):
                v = ask(f, x)
                if v != f.ref[x]:
                    nv += 1
                    if nv < 4:
                        sub.violation(f"cross:{a.label}:{b.label}:{c:X}:{d:X}",
                                      f"{f.label}(U+{x:04X}) in the history {a.label}(U+{c:04X}), {b.label}(U+{d:04X}) gives {v!r}, expected {f.ref[x]!r}",
                                      replay([(a.expr, c, a.ref[c]), (b.expr, d, b.ref[d])]))
                    break
        sub.count(transitions=2 * len(reps) ** 2, traces=len(reps) ** 2)


def long_points(ref, n):
    """n different code points, neighbours of different values where the table allows."""
    classes = {}
    for c in range(0x110000):
        v = ref[c]
        k = repr(v) if not isinstance(v, (int, str)) else v
        if k in classes:
            if len(classes[k]) < n:
                classes[k].append(c)
        elif len(classes) < 400:
            classes[k] = [c]
    out = []
    queues = [iter(q) for q in classes.values()]
    while queues and len(out) < n:
        alive = []
        for q in queues:
            c = next(q, None)
            if c is None:
                continue
            alive.append(q)
            out.append(c)
        if len(alive) == 1 and len(classes) > 1:
            out += list(itertools.islice(alive[0], max(0, n - len(out))))
        queues = alive
    return out[:n]


def long(sub, i, ks):
    a = _acc[i]
    ref = a.ref
    pts = long_points(ref, max(ks))
    n = 0
    for K in ks:
        if K > len(pts):
            break
        w = pts[:K]
        for part, seq in enumerate((w, w, w[::-1])):
            for k, c in enumerate(seq):
                n += 1
                v = ask(a, c)
                if v != ref[c]:
                    hist = (w if part else []) + (w if part > 1 else []) + seq[:k + 1]
                    sub.violation(f"long:{a.label}:{K}:{part}:{c:X}",
                                  f"{a.label}: U+{c:04X} after {len(hist) - 1} questions about {K} different code points gives {v!r}, expected {ref[c]!r}",
                                  replay([(a.expr, x, ref[x]) for x in hist[-3000:]]))
                    sub.count(transitions=n, traces=1)
                    return
        sub.count(states=1, traces=1)
    sub.count(transitions=n)


def sweeps(sub, i, stride, top):
    """Down the code space and across it, in steps of an odd number."""
    a = _acc[i]
    ref = a.ref
    for label, cs in (("down", range(top - 1, -1, -1)), ("across", ((k * stride) % top for k in range(top)))):
        n = 0
        for c in cs:
            n += 1
            v = ask(a, c)
            if v != ref[c]:
                sub.violation(f"sweep:{a.label}:{label}:{c:X}", f"{a.label}: U+{c:04X} in a sweep {label} the code space gives {v!r}, expected {ref[c]!r}",
                              replay([(a.expr, c, ref[c])]))
                break
        sub.count(states=1, transitions=n, traces=1)


BAD = [-1, 0x110000, None, "x", 1 << 40, 65.0, True]


def erroneous(sub, i):
    """Questions outside the domain, whose answers are not looked at."""
    a = _acc[i]
    ref = a.ref
    reps = _reps[i][:: max(1, len(_reps[i]) // 24)]
    n = 0
    for e1, e2 in itertools.product(BAD, BAD):
        for k, c in enumerate(reps):
            d = reps[k - 1]
            n += 1
            for x in (e1, c, e2, d, e1, c):
                if type(x) is not int or not 0 <= x < 0x110000:
                    with cpu_limit(20, f"{a.label}({x!r})"):
                        ask(a, x)
                    continue
                v = ask(a, x)
                if v != ref[x]:
                    sub.violation(f"erroneous:{a.label}:{e1!r}:{e2!r}:{c:X}",
                                  f"{a.label}: U+{x:04X} in the history {e1!r}, U+{c:04X}, {e2!r}, U+{d:04X}, {e1!r}, U+{c:04X} gives {v!r}, expected {ref[x]!r}",
                                  "def t(f):\n    try: return f()\n    except Exception as e: return e\nbad = False\n"
                                  + "".join(f"v = t(lambda: {a.expr.format(c=repr(y))})\nprint(repr(v))\n"
                                            + (f"bad |= v != {ref[y]!r}\n" if type(y) is int and 0 <= y < 0x110000 else "") for y in (e1, c, e2, d, e1, c)))
                    sub.count(transitions=6 * n, traces=n)
                    return
    sub.count(states=len(BAD) ** 2, transitions=6 * n, traces=n)


_nm = {}


def name_pairs(sub, part, parts, codes, slow):
    """Pairs of questions about names: lookups by code and by name, all choices."""
    CN = load("CharNames").CharNames
    inv = {}
    for ch, tab in ((0, "name"), (3, "alias")):
        for c, n in sorted(_nm[tab].items()):
            inv.setdefault((ch, n), c)
    qs = []
    for c in codes:
        for ch in (0, 1, 3, 4):
            n = _nm[{0: "name", 3: "alias"}[ch]].get(c, "") if ch in (0, 3) else ""
            qs.append(("getCharName", c, ch, n))
        for ch, other in ((0, 3), (3, 0)) if c in slow else ():
            n = _nm["name" if ch == 0 else "alias"].get(c)
            if n:
                qs.append(("charFromName", n, ch, inv[ch, n]))
                qs.append(("charFromName", n, other, inv.get((other, n), 0xFFFFFFFF)))
                qs.append(("charFromName", n + "X", ch, inv.get((ch, n + "X"), 0xFFFFFFFF)))
    n = 0
    for k, (p, q) in enumerate(itertools.product(qs, qs)):
        if k % parts != part:
            continue
        for f, x, ch, want in (p, q):
            n += 1
            try:
                v = getattr(CN, f)(x, ch)
            except Exception as e:
                v = f"{type(e).__name__}: {e}"
            if v != want:
                sub.violation(f"names:{p[:3]}:{q[:3]}", f"{f}({x!r}, {ch}) in the history {p[0]}{p[1:3]}, {q[0]}{q[1:3]} gives {v!r}, expected {want!r}",
                              "CN = load('CharNames').CharNames\nbad = False\n"
                              + "".join(f"v = CN.{f}({x!r}, {ch})\nprint(repr(v))\nbad |= v != {w!r}\n" for f, x, ch, w in (p, q)))
                sub.count(transitions=n)
                return
    sub.count(states=n // 2, transitions=n, traces=n // 2)


# ------------------------------------------------------------------ listings

def listings():
    """[(label, make(window), windows, lookup or None, lookup arguments, source)]"""
    out = []
    W = [(0, 0x110000), (0x41, 0x2000), (0xD7F0, 0x11000), (0x20, 0x60)]
    for mod, name in (("CharProps", "propsTrie"), ("CharProps", "propsVectorTrie"), ("BidiProps", "bidiPropsTrie"), ("CaseProps", "casePropsTrie"),
                      ("LayoutProps", "inpcTrie"), ("LayoutProps", "inscTrie"), ("LayoutProps", "voTrie")):
        t = need(load(mod), name)
        out.append((f"{name}.enumerator", lambda w, t=t: t.enumerator(*w), W, t.get, [0x41, 0x11000, 0x10FFFF, 0xD800],
                    f"t = load({mod!r}).{name}\nmake = lambda w: t.enumerator(*w)\nlook = t.get\n"))
    m = load("CharProps")
    t = m.propsVectorTrie
    out.append(("propsVectorTrie.enumerator(f)", lambda w: t.enumerator(w[0], w[1], m.binaryPropFromVecIndex, propShift=w[2], column=1),
                [(0, 0x110000, m.UPROPS_ALPHABETIC), (0, 0x110000, m.UPROPS_MATH), (0x40, 0x3000, m.UPROPS_ALPHABETIC)], t.get, [0x41, 0x2200],
                "m = load('CharProps')\nt = m.propsVectorTrie\nmake = lambda w: t.enumerator(w[0], w[1], m.binaryPropFromVecIndex, propShift=w[2], column=1)\nlook = t.get\n"))
    CN = load("CharNames").CharNames
    out.append(("CharNames.nameIterator", lambda w: CN.nameIterator(w), [0, 3], CN.getCharName, [0x20, 0x4E00, 0x1F600, 0x100000],
                "CN = load('CharNames').CharNames\nmake = lambda w: CN.nameIterator(w)\nlook = CN.getCharName\n"))
    out.append(("CharNames.nameIterator/charFromName", lambda w: CN.nameIterator(w), [0, 3], lambda n: CN.charFromName(n), ["SPACE", "DIGIT ONE", "LATIN SMALL LETTER A"],
                "CN = load('CharNames').CharNames\nmake = lambda w: CN.nameIterator(w)\nlook = CN.charFromName\n"))
    US = load("UnicodeSet").UnicodeSet
    s = US(range(3, 6)).add(9).addRange(0x41, 0x45)
    out.append(("UnicodeSet.__iter__", lambda w: iter(s), [0], s.indexOf, [3, 9, 0x43, 7],
                "s = load('UnicodeSet').UnicodeSet(range(3, 6)).add(9).addRange(0x41, 0x45)\nmake = lambda w: iter(s)\nlook = s.indexOf\n"))
    return out


def orders(a, b, c):
    """All interleavings of a steps of 0, b steps of 1 and c steps of 2."""
    if not (a or b or c):
        yield ()
        return
    for k, (x, rest) in enumerate(((a, (a - 1, b, c)), (b, (a, b - 1, c)), (c, (a, b, c - 1)))):
        if x:
            for o in orders(*rest):
                yield (k,) + o


def play(make, look, wa, wb, args, order):
    """Run one interleaving; what each of the three activities saw."""
    it = [make(wa), make(wb)]
    seen = ([], [], [])
    for k in order:
        if k < 2:
            seen[k].append(next(it[k], None))
        else:
            seen[2].append(look(args[len(seen[2]) % len(args)]))
    return seen


def interleave(sub, i, na, nb, nc):
    label, make, windows, look, args, src = LIST[i]
    nv = 0
    top = max(na, nb)
    want = {w: list(itertools.islice(itertools.chain(make(w), itertools.repeat(None)), top + 2)) for w in windows}
    wlook = [look(args[k % len(args)]) for k in range(nc)]
    if any(list(itertools.islice(itertools.chain(make(w), itertools.repeat(None)), top + 2)) != want[w] for w in windows):
        sub.violation(f"again:{label}", f"{label}: a second listing differs from the first")
    # abandoned after k items
    for w in windows:
        for k in range(top + 1):
            it = make(w)
            for _ in range(k):
                next(it, None)
            it.close() if hasattr(it, "close") and k % 2 else None
            for v in windows:
                got = list(itertools.islice(itertools.chain(make(v), itertools.repeat(None)), top + 2))
                sub.count(transitions=k + len(got), traces=1)
                if got != want[v]:
                    sub.violation(f"abandoned:{label}:{w}:{v}:{k}", f"{label}: a listing {v} after one {w} abandoned after {k} items gives {got}, expected {want[v]}",
                                  src + f"it = make({w!r})\nfor _ in range({k}): next(it, None)\nimport itertools\n"
                                  f"got = list(itertools.islice(itertools.chain(make({v!r}), itertools.repeat(None)), {top + 2}))\nprint(got)\nbad = str(got) != {str(want[v])!r}")
                    return
    n = 0
    with cpu_limit(600, label):
        for wa, wb in itertools.product(windows, windows):
            for o in orders(na, nb, nc):
                n += 1
                a, b, c = play(make, look, wa, wb, args, o)
                if a != want[wa][:na] or b != want[wb][:nb] or c != wlook:
                    nv += 1
                    if nv < 3:
                        sub.violation(f"interleaved:{label}:{wa}:{wb}:{o}",
                                      f"{label}: listings {wa} and {wb} interleaved as {o} (2 = lookup) give {a}, {b}, {c}; alone {want[wa][:na]}, {want[wb][:nb]}, {wlook}",
                                      src + f"from mc.checks import c31\ngot = c31.play(make, look, {wa!r}, {wb!r}, {args!r}, {o!r})\nprint(got)\n"
                                      f"bad = str(got) != {str((want[wa][:na], want[wb][:nb], wlook))!r}")
    sub.count(states=n, transitions=n * (na + nb + nc), traces=n)


def nested(sub, i):
    """A complete listing inside a listing, at each of its first steps."""
    label, make, windows, look, args, src = LIST[i]
    full = {w: list(make(w)) for w in windows[:2]}
    for w in windows[:2]:
        out = []
        for k, item in enumerate(make(w)):
            out.append(item)
            if k in (0, 1, 5, 40):
                for v in windows[:2]:
                    if list(make(v)) != full[v]:
                        sub.violation(f"nested:{label}:{w}:{v}:{k}", f"{label}: the listing {v} inside item {k} of the listing {w} differs from the same listing alone")
                    sub.count(transitions=len(full[v]), traces=1)
        if out != full[w]:
            sub.violation(f"outer:{label}:{w}", f"{label}: the listing {w} with listings inside its first steps differs from the same listing alone")
        sub.count(transitions=len(out), traces=1)


LIST = []


def run(ctx):
    ctx.stage("small")
    _acc[:] = accessors.all_accessors()
    names = {int(c, 16): v for c, v in json.loads(common.read_data("names.json.xz"))["name"].items()}
    CN = need(load("CharNames"), "CharNames")
    _acc.append(accessors.Acc("getCharName", CN.getCharName, _Names(names), "load('CharNames').CharNames.getCharName({c})", "CharNames"))
    memo = {}
    for i, a in enumerate(_acc):
        k = id(a.ref)
        if k not in memo:
            r = accessors.representatives(a.ref) if isinstance(a.ref, list) else []
            memo[k] = r
        _reps[i] = sorted(set(memo[k]) | set(accessors.COMMON if ctx.thorough else accessors.COMMON[::2]))
    ctx.extra(accessors=len(_acc), representatives=sum(len(r) for r in _reps.values()) // len(_acc))
    jobs = []
    for i in range(len(_acc)):
        r = _reps[i]
        pick = r if ctx.thorough else r[:: max(1, len(r) // 20)]
        jobs.append((i, pick))
    common.parallel(ctx, first, jobs)
    common.parallel(ctx, pairs, [(i, 2) for i in range(len(_acc))])
    if ctx.thorough:
        for i in range(len(_acc)):
            _reps[i] = _reps[i][:: max(1, len(_reps[i]) // 40)]
        common.parallel(ctx, pairs, [(i, 3) for i in range(len(_acc))])
    x = [0x41, 0x300, 0x661, 0xAC01, 0x10400] if not ctx.thorough else [0x29, 0x41, 0x61, 0xDF, 0x300, 0x661, 0x4E00, 0xAC01, 0xFB01, 0x10400, 0x1F600]
    common.parallel(ctx, cross, [(p, 32, x) for p in range(32)])
    ks = sorted(set(range(1, 1101 if ctx.thorough else 161)) | {x + d for x in (256, 512, 1024, 2048, 4096) for d in (-1, 0, 1, 2)} | {100, 200, 300, 500, 1000, 2000})
    common.parallel(ctx, long, [(i, ks) for i in range(len(_acc))])
    strides = [0x10001] if not ctx.thorough else [0x10003, 0x4D, 0x8081, 0x20021]
    common.parallel(ctx, sweeps, [(i, st, 0x110000 if ctx.thorough else 0x20000) for i in range(len(_acc)) for st in strides])
    common.parallel(ctx, erroneous, [(i,) for i in range(len(_acc))])
    _nm.update({k: {int(c, 16): v for c, v in d.items()} for k, d in json.loads(common.read_data("names.json.xz")).items()})
    ac = sorted(_nm["alias"])
    codes = [0x20, 0x41, 0x4E00, 0x1F600] + ac[:: max(1, len(ac) // (12 if ctx.thorough else 3))]
    common.parallel(ctx, name_pairs, [(p, 64, codes, codes if ctx.thorough else [0x20, ac[0]]) for p in range(64)])
    LIST[:] = listings()
    n = (4, 4, 2) if ctx.thorough else (3, 3, 2)
    common.parallel(ctx, interleave, [(i,) + n for i in range(len(LIST))])
    common.parallel(ctx, nested, [(i,) for i in range(len(LIST))])
    ctx.extra(listings=len(LIST), exhaustive=True)
    ctx.cov["rule"] = ("state = a history (first question of a process, sequence of questions, interleaving of listings); transition = one answer compared; "
                       "trace = one history replayed on the package")
    ctx.sample({"accessor": _acc[0].label, "representatives": [hex(c) for c in _reps[0][:12]]})
    ctx.sample({"interleaving": "listing A, B and lookups C: " + "".join("ABC"[k] for k in next(itertools.islice(orders(*n), 200, None)))})
    ctx.assumptions.append("beyond all pairs (thorough: triples) of representatives, longer histories are runs of different questions, sweeps and interleaved listings, not all sequences")


class _Names:
    def __init__(self, d):
        self.d = d

    def __getitem__(self, c):
        return self.d.get(c, "")
