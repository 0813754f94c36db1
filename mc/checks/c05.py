"""C05: arguments that are not code points are pinned to the codespace (mutators)
or reported absent (queries); they never corrupt the set."""
import pickle

from .. import usets
from ..common import Hang, cpu_limit, load, parallel
from ..usets import U7, U10, MAX, HIGH, Explorer
from .c03 import audit, audit_many

OUT_LOW = [-1, -2, -0x80000000]
OUT_HIGH = [HIGH, HIGH + 1, 0x7FFFFFFF]


def pin(c):
    return min(max(c, 0), MAX)


def ops_for(u):
    cell = {u.starts[i]: i for i in range(u.n)}
    cell_end = {u.ends[i]: i for i in range(u.n)}
    ops = []

    def add(src, f, m):
        ops.append((src, f, m))
    for c in OUT_LOW + OUT_HIGH:
        b = 1 << (0 if c < 0 else u.n - 1)
        add(f"s.add({c:#x})", lambda s, c=c: s.add(c), lambda m, b=b: m | b)
        add(f"s.remove({c:#x})", lambda s, c=c: s.remove(c), lambda m, b=b: m & ~b)
        add(f"s.retain({c:#x})", lambda s, c=c: s.retain(c), lambda m, b=b: m & b)
        add(f"s.complement({c:#x})", lambda s, c=c: s.complement(c), lambda m, b=b: m ^ b)
    starts = OUT_LOW + u.starts + OUT_HIGH
    ends = OUT_LOW + u.ends + OUT_HIGH
    for a in starts:
        for z in ends:
            if a in cell and z in cell_end:
                continue
            if z < a:
                b, empty = 0, True
            else:
                lo = cell[pin(a)]
                hi = cell_end[pin(z)]
                b, empty = u.mask(lo, hi), False
            add(f"s.addRange({a:#x}, {z:#x})", lambda s, a=a, z=z: s.addRange(a, z), lambda m, b=b: m | b)
            add(f"s.removeRange({a:#x}, {z:#x})", lambda s, a=a, z=z: s.removeRange(a, z), lambda m, b=b: m & ~b)
            add(f"s.retainRange({a:#x}, {z:#x})", lambda s, a=a, z=z: s.retainRange(a, z), lambda m, b=b: m & b)
            add(f"s.complementRange({a:#x}, {z:#x})", lambda s, a=a, z=z: s.complementRange(a, z), lambda m, b=b: m ^ b)
            add(f"s.complement(range({a:#x}, {z + 1:#x}))", lambda s, a=a, z=z: s.complement(range(a, z + 1)), lambda m, b=b: m ^ b)
    # in-range operations interleaved with them
    for i in u.singles:
        c, b = u.starts[i], 1 << i
        add(f"s.add({c:#x})", lambda s, c=c: s.add(c), lambda m, b=b: m | b)
        add(f"s.remove({c:#x})", lambda s, c=c: s.remove(c), lambda m, b=b: m & ~b)
    add("s.complement()", lambda s: s.complement(), lambda m: m ^ u.full)
    return ops


def check(u, s, want, ret):
    k = pickle.dumps(s)
    msg = audit(u, s, want, False)
    if msg is None:
        for c in OUT_LOW + OUT_HIGH:
            if s.contains(c) or c in s:
                return f"contains({c:#x}) is True"
            if s.indexOf(c) is not None:
                return f"indexOf({c:#x}) is {s.indexOf(c)}"
            if s.contains(range(c, c + 1)):
                return f"contains(range({c:#x}, {c + 1:#x})) is True"
            if c > 0 and s.contains(range(0, c + 1)):
                return f"contains(range(0, {c + 1:#x})) is True"
            if c < 0 and s.contains(range(c, 1)):
                return f"contains(range({c:#x}, 1)) is True"
        for i in (-1, HIGH, HIGH + 1):
            if s.charAt(i) is not None:
                return f"charAt({i}) is {s.charAt(i)}"
    if msg is None:
        for a in ("A", 2.5, [65], ("A", "Z")):
            for name in ("contains", "complement"):
                try:
                    r = getattr(s, name)(a)
                except Exception:  # noqa
                    continue
                return f"{name}({a!r}) answers {r!r} instead of refusing the argument"
    if msg is None and pickle.dumps(s) != k:
        return "a query changed the set" if pickle.loads(k) != s else None
    return msg


def beyond(u, s, want):
    """What a set of many ranges says of values that are not code points."""
    for c in OUT_LOW + OUT_HIGH:
        if s.contains(c) or c in s or s.indexOf(c) is not None or s.contains(range(c, c + 1)):
            return f"{c:#x} is reported as a member"
        if s.contains(range(0, c + 1) if c > 0 else range(c, 1)):
            return f"a range with the end {c:#x} is reported as contained"
    for i in (HIGH, HIGH + 1):
        if s.charAt(i) is not None:
            return f"charAt({i}) is {s.charAt(i)}"
    return None


def many(ctx, US, kind, n):
    """Sets of many ranges: ranges with an end outside the codespace and the other at
    every cell."""
    u = usets.layout(kind, n)
    P = usets.patterns(n)
    bad = steps = states = 0
    cur = ""
    muts = [("addRange", lambda m, b: m | b), ("removeRange", lambda m, b: m & ~b), ("retainRange", lambda m, b: m & b), ("complementRange", lambda m, b: m ^ b)]

    def test(p, src, want, s, full):
        nonlocal bad
        try:
            msg = (audit_many(u, s, want) if full else usets.same_ranges(u, s, want)) or beyond(u, s, want)
        except Exception as e:  # noqa
            msg = f"{type(e).__name__}: {e}"
        if msg:
            bad += 1
            if bad > 3:
                ctx.nviol += 1
                return
            ctx.violation(f"many:{kind}:{n}:{p}:{src}", f"{kind} {n} cells, pattern {p}, {src}: {msg}",
                          f"US = load('UnicodeSet').UnicodeSet\nfrom mc import usets\nfrom mc.checks import c03, c05\nu = usets.layout({kind!r}, {n})\n"
                          f"s = usets.build_large(US, u, usets.patterns({n})[{p!r}])\n{src}\nbad = c03.audit_many(u, s, {want}) or c05.beyond(u, s, {want})\nprint(bad)\n")

    try:
        with cpu_limit(300, "sets of many ranges"):
            for p, m in P.items():
                key = pickle.dumps(usets.build_large(US, u, m))
                test(p, "", m, pickle.loads(key), True)
                for i in range(n):
                    for k, a in enumerate(OUT_LOW[:2] + OUT_HIGH[:2]):
                        if a < 0:
                            lo, hi, b = a, u.ends[i], u.mask(0, i)
                        else:
                            lo, hi, b = u.starts[i], a, u.mask(i, n - 1)
                        for f, g in muts:
                            cur = src = f"s.{f}({lo:#x}, {hi:#x})"
                            s = pickle.loads(key)
                            steps += 1
                            try:
                                getattr(s, f)(lo, hi)
                            except Exception as e:  # noqa
                                ctx.violation(f"many:{kind}:{n}:{p}:{src}", f"{kind} {n} cells, pattern {p}, {src}: {type(e).__name__}: {e}",
                                              f"US = load('UnicodeSet').UnicodeSet\nfrom mc import usets\ns = usets.build_large(US, usets.layout({kind!r}, {n}), usets.patterns({n})[{p!r}])\n{src}\n")
                                return
                            test(p, src, g(m, b), s, i % 16 == k)
                            states += 1
                for a in OUT_LOW + OUT_HIGH:
                    b = 1 if a < 0 else 1 << (n - 1)
                    lo, hi = (a, u.ends[0]) if a < 0 else (u.starts[-1], a)
                    for f, g in muts:
                        cur = src = f"s.{f}({lo:#x}, {hi:#x})"
                        s = pickle.loads(key)
                        getattr(s, f)(lo, hi)
                        steps += 1
                        test(p, src, g(m, b), s, True)
                    if u.starts[0] == u.ends[0] and a < 0 or u.starts[-1] == u.ends[-1] and a > 0:
                        for f, g in (("add", muts[0][1]), ("remove", muts[1][1]), ("retain", muts[2][1]), ("complement", muts[3][1])):
                            cur = src = f"s.{f}({a:#x})"
                            s = pickle.loads(key)
                            getattr(s, f)(a)
                            steps += 1
                            test(p, src, g(m, b), s, True)
    except Hang as e:
        ctx.violation(f"many:{kind}:{n}:hang", f"{kind} {n} cells, {cur}: {e}", "bad = True")
    ctx.count(states=states + len(P), transitions=steps, traces=1)


def run(ctx):
    ctx.stage()
    US = load("UnicodeSet").UnicodeSet
    parallel(ctx, many, [(US, kind, n) for n in ((18, 40, 100, 300) if ctx.thorough else (18, 70, 140)) for kind in ("dense", "spread")])
    for u in (U7, U10) if ctx.thorough else (U7,):
        ops = ops_for(u)
        ex = Explorer(ctx, u, US, check, ops=ops, queries=False)
        ex.check_return = True
        ex.run()
        ctx.count(states=len(ex.states), transitions=ex.transitions, traces=ex.replay_all({"UnicodeSet": US}))
        ctx.sample({"operations": len(ops), "example": [o[0] for o in ops[:4]], "states": len(ex.states)})
    n = 0
    for a in OUT_LOW + [0, 1, MAX] + OUT_HIGH:
        cases = [(f"US({a:#x})", lambda: US(a), [(pin(a), pin(a))])]
        for z in OUT_LOW + [0, 1, MAX] + OUT_HIGH:
            cases.append((f"US(range({a:#x}, {z + 1:#x}))", lambda z=z: US(range(a, z + 1)), [] if z < a else [(pin(a), pin(z))]))
        for src, make, want in cases:
            n += 1
            s = make()
            got = [(r.start, r.stop - 1) for r in s.getRanges()]
            t = US(s).complement().complement()
            back = [(r.start, r.stop - 1) for r in t.getRanges()]
            if got != want or back != want or s.contains(HIGH) or s.size() != sum(b - a + 1 for a, b in want):
                ctx.violation("ctor:" + src, f"{src} is {s}, expected {want}",
                              f"US = load('UnicodeSet').UnicodeSet\ns = {src}\nprint(s)\nbad = [(r.start, r.stop - 1) for r in s.getRanges()] != {want!r} or s.contains(0x110000)\n")
    ctx.count(transitions=n)
    ctx.extra(exhaustive=True, constructor_cases=n)
    ctx.assumptions.append("a range whose end lies below its start is empty (as complementRange documents), also when an end is not a code point")
