"""C02: canonical form - equal content has one representation, one set of ranges,
one string; == and != are exactly content equality."""
import pickle

from .. import usets
from ..common import load, parallel, cpu_limit
from ..usets import U7, U10, U12, Explorer, unary_ops, MAX


def canonical(u, s, want):
    rs = [(r.start, r.stop, r.step) for r in s.getRanges()]
    exp = [(a, b + 1, 1) for a, b in u.ranges(want)]
    if rs != exp:
        return f"getRanges() gives {[(hex(a), hex(b - 1)) for a, b, _ in rs]}"
    n = s.getRangeCount()
    if n != len(exp):
        return f"getRangeCount() gives {n}"
    for i in range(n):
        if s.getRangeStart(i) != exp[i][0] or s.getRangeEnd(i) != exp[i][1] - 1:
            return f"range {i} is {s.getRangeStart(i):X}..{s.getRangeEnd(i):X}"
    return None


def check(u, s, want, ret):
    return canonical(u, s, want)


BIN = [("addAll", lambda a, b: a | b), ("retainAll", lambda a, b: a & b),
       ("removeAll", lambda a, b: a & ~b), ("complementAll", lambda a, b: a ^ b)]


def build(US, u, mask):
    s = US()
    for a, b in u.ranges(mask):
        s.addRange(a, b)
    return s


def pairs(ctx, u, US, lo, hi):
    """Binary operations on canonical operands give canonical results; == and != on
    every pair of the results' contents."""
    objs = [build(US, u, m) for m in range(u.full + 1)]
    keys = [pickle.dumps(o) for o in objs]
    text = [str(o) for o in objs]
    loads, dumps = pickle.loads, pickle.dumps
    seen = 0
    bad = 0
    for a in range(lo, hi):
        for name, m in BIN:
            for b in range(u.full + 1):
                s = loads(keys[a])
                getattr(s, name)(objs[b])
                want = m(a, b)
                seen += 1
                if dumps(s) == keys[want]:
                    continue
                msg = canonical(u, s, want)
                if msg is None and str(s) != text[want]:
                    msg = f"str() is {s} but another set with that content prints as {text[want]}"
                if msg is None and not (s == objs[want] and objs[want] == s and not s != objs[want]):
                    msg = "it does not compare equal to a set with the same content"
                if msg:
                    bad += 1
                    ctx.nviol += bad > 3
                    if bad <= 3:
                        ctx.violation(f"{name}:{a}:{b}", f"{u.fmt(a)} .{name} {u.fmt(b)}: {msg}; expected {u.fmt(want)}",
                                      f"US = load('UnicodeSet').UnicodeSet\n"
                                      f"def build(rs):\n    s = US()\n    for a, b in rs: s.addRange(a, b)\n    return s\n"
                                      f"s = build({u.ranges(a)!r}).{name}(build({u.ranges(b)!r}))\nwant = build({u.ranges(want)!r})\n"
                                      f"print(s, want)\nbad = s != want or [(r.start, r.stop - 1) for r in s.getRanges()] != {u.ranges(want)!r} or str(s) != str(want)\n")
        for b in range(u.full + 1):
            seen += 1
            e, n = objs[a] == objs[b], objs[a] != objs[b]
            if e is not (a == b) or n is not (a != b):
                bad += 1
                if bad <= 3:
                    ctx.violation(f"eq:{a}:{b}", f"{u.fmt(a)} == {u.fmt(b)} is {e}, != is {n}",
                                  f"US = load('UnicodeSet').UnicodeSet\n"
                                  f"def build(rs):\n    s = US()\n    for a, b in rs: s.addRange(a, b)\n    return s\n"
                                  f"a, b = build({u.ranges(a)!r}), build({u.ranges(b)!r})\nbad = (a == b) is not {a == b} or (a != b) is not {a != b}\n")
    ctx.count(transitions=seen)


def histories_agree(ctx, US, u):
    """Every way to reach a content (BFS over all unary histories) compares equal to
    every other way."""
    ex = Explorer(ctx, u, US, check).run()
    by_mask = {}
    for k, m in ex.states.items():
        by_mask.setdefault(m, []).append(k)
    for m, ks in by_mask.items():
        ref = build(US, u, m)
        for k in ks:
            s = pickle.loads(k)
            if not (s == ref) or s != ref or str(s) != str(ref):
                h = ex.history(k)
                ctx.violation("hist:" + "; ".join(h), f"after {'; '.join(h)} the set {s} and {ref} have the same content but differ",
                              "UnicodeSet = load('UnicodeSet').UnicodeSet\n" + usets.source_of(h) +
                              f"\nt = UnicodeSet()\nfor a, b in {u.ranges(m)!r}: t.addRange(a, b)\nprint(s, t)\nbad = s != t or not s == t or str(s) != str(t)\n")
    ctx.count(states=len(ex.states), transitions=ex.transitions, traces=ex.replay_all({"UnicodeSet": US}))
    ctx.extra(contents=len(by_mask), depth_to_closure=ex.depth)


def many(u, s, want):
    msg = usets.same_ranges(u, s, want)
    if msg is None:
        t = usets.build_large(type(s), u, want)
        if not (s == t and t == s) or s != t or str(s) != str(t):
            msg = "it differs from a set with the same content"
        else:
            t.complement(u.starts[u.n // 2])
            if s == t or not s != t or str(s) == str(t):
                msg = f"it does not differ from the set with {u.starts[u.n // 2]:#x} the other way"
    return msg


def built(US, src):
    d = {"US": US}
    exec("s = " + src, d)
    return d["s"]


def run(ctx):
    ctx.stage()
    US = load("UnicodeSet").UnicodeSet
    histories_agree(ctx, US, U7)
    histories_agree(ctx, US, U10)
    # singly built sets
    pts = [0, 1, 2, 0xFFFF, 0x10000, 0x10FFFE, MAX]
    n = 0
    for a in pts:
        for b in pts:
            if a <= b:
                for src in (f"US(range({a:#x}, {b + 1:#x}))", f"US(); s.addRange({a:#x}, {b:#x})", f"US(US(range({a:#x}, {b + 1:#x})))",
                            f"US(); s.complement(); s.retainRange({a:#x}, {b:#x})", f"US({a:#x}); s.addRange({a:#x}, {b:#x})",
                            f"US(); s.complement(range({a:#x}, {b + 1:#x}))",
                            f"US(); s.complementAll(US(range({a:#x}, {b + 1:#x})))"):
                    s = built(US, src)
                    n += 1
                    ref = US()
                    for c in (a, b):
                        ref.add(c)
                    ref.addRange(a, b)
                    rs = [(r.start, r.stop) for r in s.getRanges()]
                    if rs != [(a, b + 1)] or s.getRangeCount() != 1 or s != ref or not s == ref or str(s) != str(ref):
                        ctx.violation("ctor:" + src, f"{src} = {s} has ranges {rs}, expected one range {a:X}..{b:X}; compares equal: {s == ref}",
                                      f"US = load('UnicodeSet').UnicodeSet\ns = {src}\nbad = [(r.start, r.stop) for r in s.getRanges()] != [({a}, {b + 1})]\n")
        for src in (f"US(range({a}, {a}))", f"US({a}); s.clear()", f"US({a}); s.complement({a})"):
            s = built(US, src)
            n += 1
            if s.getRanges() or s.getRangeCount() or s != US() or str(s) != str(US()):
                ctx.violation("ctor:" + src, f"{src} = {s} is not the canonical empty set",
                              f"US = load('UnicodeSet').UnicodeSet\ns = {src}\nprint(s)\nbad = s.getRanges() or s != US()\n")
    ctx.count(transitions=n)
    u = U12 if ctx.thorough else U10
    step = (u.full + 1) // 64
    parallel(ctx, pairs, [(u, US, i, min(u.full + 1, i + step)) for i in range(0, u.full + 1, step)])
    parallel(ctx, usets.large, usets.large_jobs(US, many, (18, 40, 70, 140, 300, 1100)))
    ctx.sample({"universe_cells": [f"{a:X}" for a in u.starts], "compared_pairs": (u.full + 1) ** 2})
    ctx.extra(exhaustive=True)
    ctx.assumptions.append("the merge code treats all code points inside one cell of the universe alike")
