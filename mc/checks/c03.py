"""C03: every query of a set describes the same content."""
import pickle

from .. import usets
from ..common import load, parallel
from ..usets import U7, U10, U12, Explorer, MAX, HIGH


def members(ranges, limit=None):
    for a, b in ranges:
        for c in range(a, b + 1):
            yield c


def audit(u, s, want, small):
    rs = u.ranges(want)
    size = sum(b - a + 1 for a, b in rs)
    if s.size() != size:
        return f"size() is {s.size()}, expected {size}"
    if [(r.start, r.stop - 1) for r in s.getRanges()] != rs:
        return f"getRanges() is {s.getRanges()}"
    n = s.getRangeCount()
    if [(s.getRangeStart(i), s.getRangeEnd(i)) for i in range(n)] != rs:
        return "getRangeCount/Start/End disagree with the content"
    if str(s) != "[" + ", ".join([f"0x{x:04X}" for a, b in rs for x in ((a, b + 1) if b != MAX else (a,))] + ["0x110000"]) + "]":
        return f"str() is {s}"
    # membership, index and inverse index at every probe point and just outside
    before = 0
    pos = {}
    for a, b in rs:
        for c, _ in u.probes:
            if a <= c <= b:
                pos[c] = before + c - a
        before += b - a + 1
    for c, i in u.probes:
        inside = bool(want >> i & 1)
        if s.contains(c) is not inside or (c in s) is not inside:
            return f"contains({c:X}) is {s.contains(c)}, in gives {c in s}"
        ix = s.indexOf(c)
        if ix != pos.get(c) or (ix is None) is inside:
            return f"indexOf({c:X}) is {ix}, expected {pos.get(c)}"
    edges = sorted({x for x in list(pos.values()) + [p + 1 for p in pos.values()] + [size - 1, 0, 1] if 0 <= x < size})
    for x in edges:
        e = None
        k = x
        for a, b in rs:
            if k <= b - a:
                e = a + k
                break
            k -= b - a + 1
        if s.charAt(x) != e:
            return f"charAt({x}) is {s.charAt(x)}, expected {e:X}"
        if s.indexOf(e) != x:
            return f"indexOf(charAt({x})) is {s.indexOf(e)}"
    for x in (size, size + 1, HIGH, -1, -2):
        if s.charAt(x) is not None:
            return f"charAt({x}) is {s.charAt(x)} though the set has {size} members"
    for c in (-1, HIGH, HIGH + 1, 0x7FFFFFFF):
        if s.indexOf(c) is not None:
            return f"indexOf({c:#x}) is {s.indexOf(c)}"
        if s.contains(c) or c in s:
            return f"contains({c:#x}) is True"
    # ranges
    for lo in range(u.n):
        for hi in range(lo, u.n):
            m = u.mask(lo, hi)
            inside = (want & m) == m
            r = range(u.starts[lo], u.ends[hi] + 1)
            if s.contains(r) is not inside or (r in s) is not inside:
                return f"contains({r}) is {s.contains(r)}"
            if u.ends[lo] > u.starts[lo]:      # a range that starts inside a cell
                r = range(u.starts[lo] + 1, u.ends[hi] + 1)
                if s.contains(r) is not inside:
                    return f"contains({r}) is {s.contains(r)}"
    for r in (range(MAX, HIGH + 1), range(0, HIGH + 1), range(HIGH, HIGH + 2)):
        if s.contains(r):
            return f"contains({r}) is True"
    # iteration
    if small:
        if list(s) != list(members(rs)):
            return "iteration does not give the members in ascending order"
        if list(s) != [s.charAt(i) for i in range(size)]:
            return "iteration and charAt disagree"
    else:
        it, n = iter(s), 0
        for c in members(rs):
            g = next(it, None)
            if g != c:
                return f"iteration gives {g} where {c:X} is next"
            n += 1
            if n > 40:
                break
        else:
            if next(it, None) is not None:
                return "iteration goes on past the last member"
    return None


def make(small):
    def check(u, s, want, ret):
        k = pickle.dumps(s)
        msg = audit(u, s, want, small)
        if msg is None and pickle.loads(k) != s:
            msg = "a query changed the set"
        return msg
    return check


def job(ctx, u, small):
    US = load("UnicodeSet").UnicodeSet
    ex = Explorer(ctx, u, US, make(small)).run()
    ctx.count(states=len(ex.states), transitions=ex.transitions, traces=ex.replay_all({"UnicodeSet": US}))
    ctx.sample({"cells": [f"{a:X}" for a in u.starts], "audited_states": len(ex.states), "closure_depth": ex.depth})


def audit_many(u, s, want):
    """Every query of a set of many ranges, at every cell."""
    rs = u.ranges(want)
    msg = usets.same_ranges(u, s, want) or usets.same_members(u, s, want)
    if msg:
        return msg
    size = sum(b - a + 1 for a, b in rs)
    if s.size() != size or s.getRangeCount() != len(rs):
        return f"size() is {s.size()}, expected {size}; getRangeCount() is {s.getRangeCount()}, expected {len(rs)}"
    for i, (a, b) in enumerate(rs):
        if (s.getRangeStart(i), s.getRangeEnd(i)) != (a, b):
            return f"range {i} is {s.getRangeStart(i):X}..{s.getRangeEnd(i):X}"
    before = 0
    for a, b in rs:
        for c in {a, b, (a + b) // 2}:
            x = before + c - a
            if s.indexOf(c) != x or s.charAt(x) != c:
                return f"indexOf({c:#x}) is {s.indexOf(c)}, charAt({x}) is {s.charAt(x)}"
        before += b - a + 1
    for x in (size, -1):
        if s.charAt(x) is not None:
            return f"charAt({x}) is {s.charAt(x)} though the set has {size} members"
    for i in range(u.n):
        if not want >> i & 1 and s.indexOf(u.starts[i]) is not None:
            return f"indexOf({u.starts[i]:#x}) is {s.indexOf(u.starts[i])}"
        for d in usets.SPANS:
            if i + d < u.n:
                m = u.mask(i, i + d)
                r = range(u.starts[i], u.ends[i + d] + 1)
                if s.contains(r) is not ((want & m) == m):
                    return f"contains({r}) is {s.contains(r)}"
    if str(s) != "[" + ", ".join([f"0x{x:04X}" for a, b in rs for x in ((a, b + 1) if b != MAX else (a,))] + ["0x110000"]) + "]":
        return "str() lists other boundaries"
    it = iter(s)
    for k, c in enumerate(members(rs)):
        if k == 3000:
            return None
        g = next(it, None)
        if g != c:
            return f"iteration gives {g} where {c:#x} is next"
    return None if next(it, None) is None else "iteration goes on past the last member"


def multi(ctx, US):
    """After every two-step history, audit again with live (not cloned) objects so a
    stale answer remembered from before the second mutation shows."""
    u = U7
    ops = usets.unary_ops(u)
    n = 0
    for src1, f1, m1 in ops:
        for src2, f2, m2 in ops:
            s = US()
            s.addRange(1, 2)
            for q in (s.size, s.getRangeCount, lambda: s.contains(2), lambda: s.indexOf(1), lambda: s.charAt(0)):
                q()
            f1(s)
            for q in (s.size, s.getRangeCount, lambda: s.contains(2), lambda: s.indexOf(1), lambda: s.charAt(0), lambda: s.contains(MAX)):
                q()
            f2(s)
            n += 1
            want = m2(m1(0b110))
            msg = audit(u, s, want, False)
            if msg:
                ctx.nviol += 1
                if len(ctx.violations) < 6:
                    ctx.nviol -= 1
                    ctx.violation(f"two:{src1}:{src2}", f"{{1..2}}, queries, {src1}, queries, {src2}: {msg}",
                                  "US = load('UnicodeSet').UnicodeSet\nfrom mc.checks import c03\nfrom mc.usets import U7\n"
                                  f"s = US()\ns.addRange(1, 2)\nq = lambda: (s.size(), s.getRangeCount(), s.contains(2), s.indexOf(1), s.charAt(0), s.contains({MAX}))\n"
                                  f"q()\n{src1}\nq()\n{src2}\nbad = c03.audit(U7, s, {want}, False)\nprint(bad)\n")
    ctx.count(transitions=2 * n, traces=n)


def run(ctx):
    ctx.stage()
    US = load("UnicodeSet").UnicodeSet
    jobs = [(U7, False), (U10, False)]
    if ctx.thorough:
        jobs.append((U12, False))
    parallel(ctx, job, jobs)
    multi(ctx, US)
    parallel(ctx, usets.large, [j for n in (18, 40, 70, 140, 300, 1100) for j in usets.large_jobs(US, audit_many, (n,)) if n <= 40 or j[4] == "orders" and n < 150 or j[4] == "pairs"])
    # complete iteration on sets that fit
    n = 0
    pts = [0, 1, 2, 3, 5, 8, 13]
    for m in range(1 << len(pts)):
        s, exp = US(), []
        for i, p in enumerate(pts):
            if m >> i & 1:
                s.addRange(p, p + (i & 1))
                exp += list(range(p, p + (i & 1) + 1))
        exp = sorted(set(exp))
        n += 1
        if list(s) != exp or [s.charAt(i) for i in range(len(exp))] != exp or [s.indexOf(c) for c in exp] != list(range(len(exp))) or s.size() != len(exp):
            ctx.violation(f"small:{m}", f"{s}: iteration {list(s)}, expected {exp}",
                          f"s = load('UnicodeSet').UnicodeSet()\nfor i, p in enumerate({pts}):\n    if {m} >> i & 1: s.addRange(p, p + (i & 1))\nbad = list(s) != {exp}\n")
    full = US()
    full.complement()
    if sum(1 for _ in full) != HIGH or full.size() != HIGH:
        ctx.violation("full", "the complement of the empty set does not iterate over all 0x110000 code points",
                      "s = load('UnicodeSet').UnicodeSet()\ns.complement()\nbad = sum(1 for _ in s) != 0x110000\n")
    ctx.count(transitions=n + 1, traces=n + 1)
    ctx.extra(exhaustive=True)
    ctx.assumptions.append("queries treat all code points inside one cell of the universe alike, apart from its first, middle and last")
