"""C01: every history of set mutations denotes exactly the set algebra says."""
import pickle

from .. import usets
from ..common import load, parallel, cpu_limit, Hang
from ..usets import U7, U10, U12, Explorer, observe


def check(u, s, want, ret):
    got = observe(u, s)
    if got != want:
        return got if isinstance(got, str) else f"contains() describes {u.fmt(got)}"
    return None


def chained(s, r):
    if r is not s:
        raise TypeError(f"the call returned {type(r).__name__} instead of the set itself, so calls do not chain")


INPLACE = [("addAll", lambda a, b: a | b), ("retainAll", lambda a, b: a & b),
           ("removeAll", lambda a, b: a & ~b), ("complementAll", lambda a, b: a ^ b)]
OTHERS = [
    ("s |= t", lambda s, t: s.__ior__(t), lambda a, b: a | b), ("s &= t", lambda s, t: s.__iand__(t), lambda a, b: a & b),
    ("s -= t", lambda s, t: s.__isub__(t), lambda a, b: a & ~b), ("s ^= t", lambda s, t: s.__ixor__(t), lambda a, b: a ^ b),
    ("s = s | t", lambda s, t: s | t, lambda a, b: a | b), ("s = s & t", lambda s, t: s & t, lambda a, b: a & b),
    ("s = s - t", lambda s, t: s - t, lambda a, b: a & ~b), ("s = s ^ t", lambda s, t: s ^ t, lambda a, b: a ^ b),
    ("s = s.union(t)", lambda s, t: s.union(t), lambda a, b: a | b),
    ("s = s.intersection(t)", lambda s, t: s.intersection(t), lambda a, b: a & b),
    ("s = s.difference(t)", lambda s, t: s.difference(t), lambda a, b: a & ~b),
    ("s = s.symmetric_difference(t)", lambda s, t: s.symmetric_difference(t), lambda a, b: a ^ b),
]


def pairs(ctx, u, ops, states, hist, lo, hi):
    """All (s, t, op) with s among states[lo:hi]."""
    known = dict(states)
    loads, dumps = pickle.loads, pickle.dumps
    ts = [(k, m, loads(k)) for k, m in states]
    bad = {}
    cur = None
    n = fresh = 0
    try:
        with cpu_limit(800, "binary set operation"):
            for ks, ms in states[lo:hi]:
                for src, f, m in ops:
                    for kt, mt, t in ts:
                        cur = (src, ks, kt)
                        s = loads(ks)
                        n += 1
                        want = m(ms, mt)
                        msg = None
                        try:
                            r = f(s, t)
                            k2 = dumps(s if r is None else r)
                            old = known.get(k2)
                            if old is None:
                                msg = check(u, s if r is None else r, want, None)
                                if msg is None:
                                    fresh += 1
                                    if fresh < 5000:
                                        known[k2] = want
                            elif old != want:
                                msg = f"left {u.fmt(old)}"
                        except Exception as e:  # noqa
                            msg = f"raised {type(e).__name__}: {e}"
                        if msg:
                            bad[src] = bad.get(src, 0) + 1
                            ctx.nviol += 1
                            if bad[src] <= 2:
                                ctx.nviol -= 1
                                report(ctx, u, hist, src, ks, ms, kt, mt, want, msg)
                            # the operand may have been damaged
                            ts = [(k, mm, loads(k)) for k, mm in states] if dumps(t) != kt else ts
    except Hang as e:
        report(ctx, u, hist, cur[0], cur[1], 0, cur[2], 0, None, str(e))
    ctx.count(transitions=n)
    ctx.extra(binary_operations=n)


def report(ctx, u, hist, src, ks, ms, kt, mt, want, msg):
    hs, ht = hist[ks], hist[kt]
    stmt = src if "=" in src else f"s.{src}(t)"
    body = ("UnicodeSet = load('UnicodeSet').UnicodeSet\n" + usets.source_of(hs) + "\n" + usets.source_of(ht, "t") + f"\n{stmt}\nprint('got', s)\n"
            f"want = {u.ranges(want or 0)!r}\n"
            "def inside(c): return any(a <= c <= b for a, b in want)\n"
            f"bad = any(s.contains(c) != inside(c) for c in {sorted({p for p, _ in u.probes})!r})\n")
    ctx.violation(f"{src}:{u.fmt(ms)}:{u.fmt(mt)}", f"s = {u.fmt(ms)}, t = {u.fmt(mt)}, {stmt}: {msg}"
                  + ("" if want is None else f"; expected {u.fmt(want)}"), body)


def explore(ctx, US, u, ops, chunks):
    ex = Explorer(ctx, u, US, check)
    ex.check_return = True
    ex.run()
    ctx.count(states=len(ex.states), transitions=ex.transitions, traces=ex.replay_all({"UnicodeSet": US}))
    ctx.extra(unary_transitions=ex.transitions, depth_to_closure=ex.depth)
    states = list(ex.states.items())
    if len(states) > 2 << u.n:
        # objects with hidden fields: the pair product takes the first and the last state met per content
        first, last = {}, {}
        for k, m in states:
            first.setdefault(m, k)
            last[m] = k
        keep = set(first.values()) | set(last.values())
        states = [(k, m) for k, m in states if k in keep]
        ctx.extra(pair_states_thinned=True)
    hist = {k: ex.history(k) for k in ex.states}
    ctx.sample({"universe_cells": [f"{a:X}" for a in u.starts], "implementation_states": len(states),
                "example_history": hist[states[-1][0]]})
    step = max(1, len(states) // chunks)
    parallel(ctx, pairs, [(u, ops, states, hist, i, min(len(states), i + step)) for i in range(0, len(states), step)])


def run(ctx):
    ctx.stage()
    US = load("UnicodeSet").UnicodeSet
    inplace = [(n, (lambda s, t, n=n: chained(s, getattr(s, n)(t))), m) for n, m in INPLACE]
    constructors(ctx, US)
    explore(ctx, US, U7, inplace + OTHERS, 16)
    explore(ctx, US, U12 if ctx.thorough else U10, inplace, 64)
    parallel(ctx, usets.large, usets.large_jobs(US, usets.same_members, (18, 40, 70, 140, 300, 1100)))
    ctx.extra(exhaustive=True)
    ctx.assumptions += ["a set's future depends only on the object's own pickled state (module-level state is explored separately by C04)",
                        "the merge code treats all code points inside one cell of the universe alike"]


def constructors(ctx, US):
    """UnicodeSet(int), UnicodeSet(range), UnicodeSet(set) over the boundary alphabet."""
    alphabet = [0, 1, 2, 0xD7FF, 0xFFFF, 0x10000, 0x10FFFE, 0x10FFFF]
    n = 0

    def bad(src, want, s):
        ctx.violation("ctor:" + src, f"{src} contains {s} instead of {want}",
                      f"UnicodeSet = load('UnicodeSet').UnicodeSet\ns = {src}\nwant = {want!r}\nprint(s)\n"
                      f"bad = any(s.contains(c) != any(a <= c <= b for a, b in want) for c in {probes!r})\n")
    probes = sorted({min(max(a + d, 0), usets.MAX) for a in alphabet for d in (-1, 0, 1)})

    def verify(src, s, want):
        nonlocal n
        n += 1
        got = [c for c in probes if s.contains(c)]
        if got != [c for c in probes if any(a <= c <= b for a, b in want)]:
            bad(src, want, s)
    verify("UnicodeSet()", US(), [])
    for a in alphabet:
        verify(f"UnicodeSet({a:#x})", US(a), [(a, a)])
        verify(f"UnicodeSet(UnicodeSet({a:#x}))", US(US(a)), [(a, a)])
        for b in alphabet:
            if a <= b:
                verify(f"UnicodeSet(range({a:#x}, {b + 1:#x}))", US(range(a, b + 1)), [(a, b)])
                verify(f"UnicodeSet(UnicodeSet(range({a:#x}, {b + 1:#x})))", US(US(range(a, b + 1))), [(a, b)])
        verify(f"UnicodeSet(range({a:#x}, {a:#x}))", US(range(a, a)), [])
        # a constructed set behaves like one built by calls
        for b in alphabet:
            s = US(a)
            s.add(b)
            verify(f"UnicodeSet({a:#x}).add({b:#x})", s, [(a, a), (b, b)])
            s = US(range(a, a + 1))
            s.complement()
            s.removeRange(b, b)
            verify(f"UnicodeSet(range({a:#x}, {a + 1:#x})).complement().removeRange({b:#x}, {b:#x})", s,
                   [(x, y) for x, y in _minus(a, b)])
    ctx.count(transitions=n)


def _minus(a, b):
    pts = sorted({a, b})
    out, lo = [], 0
    for p in pts:
        if lo <= p - 1:
            out.append((lo, p - 1))
        lo = p + 1
    if lo <= usets.MAX:
        out.append((lo, usets.MAX))
    return out
