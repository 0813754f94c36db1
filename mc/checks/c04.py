"""C04: sets are values - operations change exactly the set they are invoked on,
copies and results are independent, mutators return the set itself."""
import pickle

from .. import usets
from ..common import load, parallel, cpu_limit, Hang
from ..usets import U5, MAX

U = U5
RANGES = {m: [(a, b + 1) for a, b in U.ranges(m)] for m in range(U.full + 1)}
B = {0: 1, 1: 2, 2: 4, "wide": 8, MAX: 16}


class M:
    """Model object: a mutable mask with identity."""
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m


class Wrong(Exception):
    pass


def alphabet():
    """[(source, real(vars, US), model(vars))]; vars is a dict of a, b, c.  `real`
    raises Wrong when the call's result breaks the contract by itself."""
    ops = []
    INPL = [("addAll", lambda x, y: x | y), ("retainAll", lambda x, y: x & y), ("removeAll", lambda x, y: x & ~y), ("complementAll", lambda x, y: x ^ y)]
    AUG = [("|=", "__ior__", INPL[0][1]), ("&=", "__iand__", INPL[1][1]), ("-=", "__isub__", INPL[2][1]), ("^=", "__ixor__", INPL[3][1])]
    NEW = [("|", "__or__", INPL[0][1]), ("&", "__and__", INPL[1][1]), ("-", "__sub__", INPL[2][1]), ("^", "__xor__", INPL[3][1]),
           ("union", "union", INPL[0][1]), ("intersection", "intersection", INPL[1][1]), ("difference", "difference", INPL[2][1]),
           ("symmetric_difference", "symmetric_difference", INPL[3][1])]

    def mut(src, v, call, f):
        def real(V, US):
            r = call(V[v], V)
            if r is not V[v]:
                raise Wrong(f"{src} returned {r!r} instead of the set it was invoked on")

        def model(V):
            V[v].m = f(V[v].m, V)
        ops.append((src, real, model))

    def assign(src, v, make, f):
        def real(V, US):
            r = make(V, US)
            if any(r is o for o in V.values()):
                raise Wrong(f"{src}: the result is one of the operands, not a new set")
            V[v] = r

        def model(V):
            V[v] = M(f(V))
        ops.append((src, real, model))

    for v, w in (("a", "b"), ("b", "a"), ("c", "a"), ("a", "a")):
        for n, f in INPL:
            mut(f"{v}.{n}({w})", v, lambda o, V, n=n, w=w: getattr(o, n)(V[w]), lambda x, V, f=f, w=w: f(x, V[w].m))
    for v, w in (("a", "b"), ("c", "a")):
        for sym, n, f in AUG:
            mut(f"{v} {sym} {w}", v, lambda o, V, n=n, w=w: getattr(o, n)(V[w]), lambda x, V, f=f, w=w: f(x, V[w].m))
    for v in ("a", "b"):
        mut(f"{v}.add(1)", v, lambda o, V: o.add(1), lambda x, V: x | 2)
        mut(f"{v}.addRange(1, 2)", v, lambda o, V: o.addRange(1, 2), lambda x, V: x | 6)
        mut(f"{v}.complement()", v, lambda o, V: o.complement(), lambda x, V: x ^ U.full)
        mut(f"{v}.clear()", v, lambda o, V: o.clear(), lambda x, V: 0)
    mut(f"a.add({MAX:#x})", "a", lambda o, V: o.add(MAX), lambda x, V: x | 16)
    mut("a.add(0)", "a", lambda o, V: o.add(0), lambda x, V: x | 1)
    mut("a.remove(1)", "a", lambda o, V: o.remove(1), lambda x, V: x & ~2)
    mut("a.removeRange(1, 2)", "a", lambda o, V: o.removeRange(1, 2), lambda x, V: x & ~6)
    mut("a.retain(2)", "a", lambda o, V: o.retain(2), lambda x, V: x & 4)
    mut("a.retainRange(0, 1)", "a", lambda o, V: o.retainRange(0, 1), lambda x, V: x & 3)
    mut("a.complementRange(1, 2)", "a", lambda o, V: o.complementRange(1, 2), lambda x, V: x ^ 6)
    mut("a.complement(2)", "a", lambda o, V: o.complement(2), lambda x, V: x ^ 4)
    mut("a.complement(range(0, 2))", "a", lambda o, V: o.complement(range(0, 2)), lambda x, V: x ^ 3)
    mut(f"a.addRange(3, {MAX:#x})", "a", lambda o, V: o.addRange(3, MAX), lambda x, V: x | 24)
    for sym, n, f in NEW:
        src = f"c = a {sym} b" if not sym.isalpha() and "_" not in sym else f"c = a.{sym}(b)"
        assign(src, "c", lambda V, US, n=n: getattr(V["a"], n)(V["b"]), lambda V, f=f: f(V["a"].m, V["b"].m))
    for sym, n, f in NEW[:4]:
        assign(f"b = a {sym} a", "b", lambda V, US, n=n: getattr(V["a"], n)(V["a"]), lambda V, f=f: f(V["a"].m, V["a"].m))
    assign("b = UnicodeSet(a)", "b", lambda V, US: US(V["a"]), lambda V: V["a"].m)
    assign("c = UnicodeSet(a)", "c", lambda V, US: US(V["a"]), lambda V: V["a"].m)
    assign("b = UnicodeSet()", "b", lambda V, US: US(), lambda V: 0)
    assign("c = UnicodeSet(1)", "c", lambda V, US: US(1), lambda V: 2)
    assign("a = UnicodeSet(range(1, 3))", "a", lambda V, US: US(range(1, 3)), lambda V: 6)

    def alias_real(V, US):
        V["c"] = V["a"]

    def alias_model(V):
        V["c"] = V["a"]
    ops.append(("c = a", alias_real, alias_model))

    def ranges_real(V, US):
        V["a"].getRanges().clear()
        V["b"].getRanges().append(range(7, 9))
    ops.append(("a.getRanges().clear(); b.getRanges().append(range(7, 9))", ranges_real, lambda V: None))

    def query_real(V, US):
        a, b = V["a"], V["b"]
        str(a), a.size(), a == b, a != b, a.contains(1), range(0, 2) in a, a.indexOf(1), a.charAt(0), next(iter(a), None), a.getRangeCount()
    ops.append(("str(a), a.size(), a == b, a != b, a.contains(1), range(0, 2) in a, a.indexOf(1), a.charAt(0), next(iter(a), None), a.getRangeCount()",
                query_real, lambda V: None))
    return ops


INITIAL = [
    ("a = UnicodeSet(); b = UnicodeSet(range(1, 3)); c = UnicodeSet()", lambda US: {"a": US(), "b": US(range(1, 3)), "c": US()}, (0, 6, 0)),
    (f"a = UnicodeSet({MAX:#x}).add(0); b = UnicodeSet().complement(); c = UnicodeSet(1)",
     lambda US: {"a": US(MAX).add(0), "b": US().complement(), "c": US(1)}, (17, 31, 2)),
]


def content(s):
    return [(r.start, r.stop) for r in s.getRanges()]


def verify(V, W):
    for k, o in V.items():
        if content(o) != RANGES[W[k].m]:
            return f"{k} is {o}, expected {U.fmt(W[k].m)}"
    for x, y in (("a", "b"), ("a", "c"), ("b", "c")):
        if (V[x] is V[y]) != (W[x] is W[y]):
            return f"{x} and {y} are {'the same' if V[x] is V[y] else 'different'} objects"
    return None


def explore(ctx, US, depth, first):
    ops = alphabet()
    n = steps = 0
    seen = set()
    reported = set()

    def execute(init, seq):
        V = init[1](US)
        W = dict(zip("abc", (M(m) for m in init[2])))
        for i in seq:
            src, real, model = ops[i]
            model(W)
            try:
                real(V, US)
            except Wrong as e:
                return str(e)
            except Exception as e:  # noqa
                return f"{src} raised {type(e).__name__}: {e}"
            msg = verify(V, W)
            if msg:
                return msg
        seen.add((W["a"].m, W["b"].m, W["c"].m, W["a"] is W["c"]))
        return None

    # every sequence of exactly `depth` operations (each prefix is checked on the way)
    cur = None
    try:
        with cpu_limit(700, "set history"):
            for init in INITIAL:
                stack = [(first,)]
                while stack:
                    seq = stack.pop()
                    cur = (init, seq)
                    if len(seq) < depth and not (len(seq) == 1 and execute(init, seq)):
                        stack.extend(seq + (j,) for j in range(len(ops)))
                        continue
                    n += 1
                    steps += len(seq)
                    msg = execute(init, seq)
                    if msg:
                        ctx.nviol += 1
                        kind = msg[:40]
                        if kind not in reported and len(reported) < 3:
                            ctx.nviol -= 1
                            reported.add(kind)
                            report(ctx, init, [ops[i][0] for i in seq], seq, msg)
    except Hang as e:
        report(ctx, cur[0], [ops[i][0] for i in cur[1]], cur[1], str(e))
    ctx.count(transitions=steps, traces=n)
    ctx.extra(_seen=0)
    ctx.cov["samples"] = []
    ctx.cov["_set"] = sorted(seen)


def report(ctx, init, srcs, seq, msg):
    ctx.violation(f"{'; '.join(srcs)}", f"{init[0]}; {'; '.join(srcs)}: {msg}",
                  f"US = load('UnicodeSet').UnicodeSet\nfrom mc.checks import c04\n# {init[0]}\n# " + "\n# ".join(srcs) +
                  f"\nbad = c04.replay(US, {INITIAL.index(init)}, {list(seq)!r})\nprint(bad)\n")


def replay(US, i, seq):
    ops = alphabet()
    V = INITIAL[i][1](US)
    W = dict(zip("abc", (M(m) for m in INITIAL[i][2])))
    for k in seq:
        ops[k][2](W)
        try:
            ops[k][1](V, US)
        except Exception as e:  # noqa
            return f"{ops[k][0]}: {e!r}"
        msg = verify(V, W)
        if msg:
            return f"{ops[k][0]}: {msg}"
    return None


# -- sets of many ranges: every pair of patterns, every way to make a third set from
# them, then every change of one of the three; the other two stay what they were.
MAKE = [("s | t", lambda a, b: a | b), ("s & t", lambda a, b: a & b), ("s - t", lambda a, b: a & ~b), ("s ^ t", lambda a, b: a ^ b),
        ("s.union(t)", lambda a, b: a | b), ("s.intersection(t)", lambda a, b: a & b), ("s.difference(t)", lambda a, b: a & ~b),
        ("s.symmetric_difference(t)", lambda a, b: a ^ b), ("UnicodeSet(s)", lambda a, b: a), ("UnicodeSet(t)", lambda a, b: b),
        ("UnicodeSet().addAll(s)", lambda a, b: a), ("UnicodeSet(t).retainAll(s)", lambda a, b: a & b),
        ("UnicodeSet().complementAll(t)", lambda a, b: b), ("UnicodeSet().complement().retainAll(s)", lambda a, b: a),
        ("UnicodeSet(s).removeAll(t)", lambda a, b: a & ~b)]


def changes(u, P):
    """[(source over x, mask function)]: changes of a set of many ranges."""
    i, j = u.n // 3, u.n // 3 + 4
    a, z, b = u.starts[i], u.ends[j], u.mask(i, j)
    k = u.n - 2
    c, d, e = u.starts[k], u.ends[k], 1 << k
    return [(f"x.addRange({a:#x}, {z:#x})", lambda m: m | b), (f"x.removeRange({a:#x}, {z:#x})", lambda m: m & ~b),
            (f"x.addRange({c:#x}, {d:#x})", lambda m: m | e), (f"x.removeRange({c:#x}, {d:#x})", lambda m: m & ~e),
            (f"x.retainRange({a:#x}, {z:#x})", lambda m: m & b), (f"x.complementRange({a:#x}, {z:#x})", lambda m: m ^ b),
            ("x.complement()", lambda m: m ^ u.full), ("x.clear()", lambda m: 0), ("x.addAll(build('odd'))", lambda m: m | P["odd"]),
            ("x.removeAll(build('even'))", lambda m: m & ~P["even"]), ("x ^= build('thirds')", lambda m: m ^ P["thirds"]),
            ("x.getRanges().clear()", lambda m: m)]


def large(ctx, US, kind, n, q):
    u = usets.layout(kind, n)
    P = usets.patterns(n)
    wanted = {}

    def ranges(m):
        r = wanted.get(m)
        if r is None:
            r = wanted[m] = [(a, b + 1) for a, b in u.ranges(m)]
        return r
    keys = {p: pickle.dumps(usets.build_large(US, u, m)) for p, m in P.items()}
    env = {"UnicodeSet": US, "build": lambda p: pickle.loads(keys[p])}
    bad = steps = traces = 0
    code = {}

    def compiled(src):
        if src not in code:
            code[src] = compile(src, "<history>", "exec")
        return code[src]
    cur = None
    try:
        with cpu_limit(400, "sets of many ranges"):
            for p in P:
                for src, f in MAKE:
                    start = f"s = build({p!r}); t = build({q!r}); r = {src}"
                    base = {"s": P[p], "t": P[q], "r": f(P[p], P[q])}
                    for v in ("s", "t", "r"):
                        for ch, g in changes(u, P):
                            cur = f"{start}; x = {v}; {ch}"
                            msg = None
                            traces += 1
                            steps += 2
                            want = dict(base)
                            want[v] = g(want[v])
                            try:
                                exec(compiled(cur), env)
                                for w in ("s", "t", "r"):
                                    if content(env[w]) != ranges(want[w]):
                                        msg = f"{w} is not what it should be"
                                if env["x"] is not env[v]:
                                    msg = "the set changed identity"
                            except Exception as e:  # noqa
                                msg = f"{type(e).__name__}: {e}"
                            if msg:
                                bad += 1
                                if bad > 3:
                                    ctx.nviol += 1
                                    continue
                                ctx.violation(f"large:{kind}:{n}:{cur}", f"{kind} {n} cells: {cur}: {msg}", f"""UnicodeSet = load('UnicodeSet').UnicodeSet
from mc import usets
from mc.checks import c04
u = usets.layout({kind!r}, {n})
P = usets.patterns({n})
build = lambda p: usets.build_large(UnicodeSet, u, P[p])
{cur.replace('; ', chr(10))}
want = [{', '.join(repr(want[w]) for w in 'str')}]
bad = [c04.content(o) for o in (s, t, r)] != [[(a, b + 1) for a, b in u.ranges(m)] for m in want] or x is not {v}
""")
    except Hang as e:
        ctx.violation(f"large:{kind}:{n}:hang", f"{kind} {n} cells, {cur}: {e}", "bad = True")
    ctx.count(transitions=steps, traces=traces, states=len(wanted))


def run(ctx):
    ctx.stage()
    US = load("UnicodeSet").UnicodeSet
    ops = alphabet()
    depth = 4 if ctx.thorough else 3
    seen = set()
    # merge() would overwrite _set, so collect it here
    from .. import common
    orig = common.merge

    def merge(c, r):
        seen.update(map(tuple, r["cov"].pop("_set", [])))
        r["cov"].pop("_seen", None)
        orig(c, r)
    common.merge = merge
    try:
        parallel(ctx, explore, [(US, depth, i) for i in range(len(ops))])
        many = [(US, kind, n, q) for n in ((18, 100, 300, 1100) if ctx.thorough else (18, 140, 300)) for kind in ("dense", "spread") for q in usets.patterns(n)]
        parallel(ctx, large, many)
    finally:
        common.merge = orig
    ctx.count(states=len(seen))
    ctx.extra(exhaustive=True, depth=depth, operations=len(ops), many_ranges=len(many))
    ctx.sample({"initial": [i[0] for i in INITIAL], "operations": [o[0] for o in ops]})
    ctx.sample("; ".join(ops[i][0] for i in (0, 40, 55 % len(ops))))
    ctx.assumptions.append("histories longer than the bound decompose into ones within it unless they need more than three live sets")
