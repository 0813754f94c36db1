"""Explicit-state exploration of the real UnicodeSet class.

The codespace is cut into cells; a model state is the bit mask of the cells in
the set.  An implementation state is the *whole* object (its pickle), so states
that differ in hidden fields (caches, non-canonical lists) are kept apart."""
import pickle
import re

from .common import Hang, cpu_limit

MAX = 0x10FFFF
HIGH = 0x110000
_ONES = re.compile("1+")


class Universe:
    def __init__(self, starts):
        assert starts[0] == 0
        self.starts = list(starts)
        self.n = len(starts)
        self.ends = [s - 1 for s in starts[1:]] + [MAX]
        self.full = (1 << self.n) - 1
        self.probes = []            # (code point, cell)
        for i in range(self.n):
            for p in sorted({self.starts[i], self.ends[i], (self.starts[i] + self.ends[i]) // 2}):
                self.probes.append((p, i))
        self.singles = [i for i in range(self.n) if self.starts[i] == self.ends[i]]
        self.sizes = [e - s + 1 for s, e in zip(self.starts, self.ends)]

    def mask(self, lo, hi):
        """cells lo..hi inclusive"""
        return ((1 << (hi + 1)) - 1) & ~((1 << lo) - 1)

    def ranges(self, mask):
        """The canonical ranges (start, end inclusive) of a mask."""
        return [(self.starts[r.start()], self.ends[r.end() - 1]) for r in _ONES.finditer(bin(mask)[:1:-1])]

    def size(self, mask):
        return sum(z for i, z in enumerate(self.sizes) if mask >> i & 1)

    def fmt(self, mask):
        return "{" + ", ".join(f"{a:X}" if a == b else f"{a:X}..{b:X}" for a, b in self.ranges(mask)) + "}"


U7 = Universe([0, 1, 2, 3, 0x10, 0x10FFFE, 0x10FFFF])
U10 = Universe([0, 1, 2, 3, 4, 0x10, 0xFFFF, 0x10000, 0x10FFFE, 0x10FFFF])
U12 = Universe([0, 1, 2, 3, 4, 5, 0x10, 0xFFFF, 0x10000, 0x10001, 0x10FFFE, 0x10FFFF])
U5 = Universe([0, 1, 2, 3, 0x10FFFF])
U4 = Universe([0, 1, 2, 0x10FFFF])


def unary_ops(u):
    """[(source, function on the real set, function on the mask)]"""
    ops = []

    def add(src, f, m):
        ops.append((src, f, m))
    for i in u.singles:
        c, b = u.starts[i], 1 << i
        add(f"s.add({c:#x})", lambda s, c=c: s.add(c), lambda m, b=b: m | b)
        add(f"s.remove({c:#x})", lambda s, c=c: s.remove(c), lambda m, b=b: m & ~b)
        add(f"s.retain({c:#x})", lambda s, c=c: s.retain(c), lambda m, b=b: m & b)
        add(f"s.complement({c:#x})", lambda s, c=c: s.complement(c), lambda m, b=b: m ^ b)
    for lo in range(u.n):
        for hi in range(lo, u.n):
            a, z, b = u.starts[lo], u.ends[hi], u.mask(lo, hi)
            add(f"s.addRange({a:#x}, {z:#x})", lambda s, a=a, z=z: s.addRange(a, z), lambda m, b=b: m | b)
            add(f"s.removeRange({a:#x}, {z:#x})", lambda s, a=a, z=z: s.removeRange(a, z), lambda m, b=b: m & ~b)
            add(f"s.retainRange({a:#x}, {z:#x})", lambda s, a=a, z=z: s.retainRange(a, z), lambda m, b=b: m & b)
            add(f"s.complementRange({a:#x}, {z:#x})", lambda s, a=a, z=z: s.complementRange(a, z), lambda m, b=b: m ^ b)
            add(f"s.complement(range({a:#x}, {z + 1:#x}))", lambda s, a=a, z=z: s.complement(range(a, z + 1)), lambda m, b=b: m ^ b)
    # empty ranges (the end below the start)
    e = max(1, u.n // 2)
    a, z = u.starts[e], u.starts[e - 1]
    add(f"s.addRange({a:#x}, {z:#x})", lambda s: s.addRange(a, z), lambda m: m)
    add(f"s.removeRange({a:#x}, {z:#x})", lambda s: s.removeRange(a, z), lambda m: m)
    add(f"s.retainRange({a:#x}, {z:#x})", lambda s: s.retainRange(a, z), lambda m: 0)
    add(f"s.complementRange({a:#x}, {z:#x})", lambda s: s.complementRange(a, z), lambda m: m)
    add(f"s.complement(range({a:#x}, {a:#x}))", lambda s: s.complement(range(a, a)), lambda m: m)
    add("s.complement(range(0, 0))", lambda s: s.complement(range(0, 0)), lambda m: m)
    add("s.complement()", lambda s: s.complement(), lambda m: m ^ u.full)
    add("s.clear()", lambda s: s.clear(), lambda m: 0)
    # the set as its own operand
    add("s.addAll(s)", lambda s: s.addAll(s), lambda m: m)
    add("s.retainAll(s)", lambda s: s.retainAll(s), lambda m: m)
    add("s.removeAll(s)", lambda s: s.removeAll(s), lambda m: 0)
    add("s.complementAll(s)", lambda s: s.complementAll(s), lambda m: 0)
    return ops


def query_ops(u):
    """Read-only calls: as transitions they must leave the content alone, and they
    give hidden caches a chance to go stale."""
    p = [u.starts[0], u.ends[u.n // 2], u.starts[-1]]
    ops = [("s.size()", lambda s: s.size()), ("list(s.getRanges())", lambda s: s.getRanges()),
           ("s.charAt(1)", lambda s: s.charAt(1)), ("str(s)", lambda s: str(s)),
           ("s == s", lambda s: s == s), ("next(iter(s), None)", lambda s: next(iter(s), None)),
           ("UnicodeSet_copy", None)]
    for c in p:
        ops.append((f"s.contains({c:#x})", lambda s, c=c: s.contains(c)))
        ops.append((f"s.indexOf({c:#x})", lambda s, c=c: s.indexOf(c)))
        ops.append((f"s.contains(range({c:#x}, {c + 1:#x}))", lambda s, c=c: s.contains(range(c, c + 1))))
    return [o for o in ops if o[1] is not None]


def observe(u, s):
    """The content as contains() reports it: a mask, or a string saying why not."""
    m = 0
    seen = [None] * u.n
    for c, i in u.probes:
        r = bool(s.contains(c))
        if seen[i] is None:
            seen[i] = r
        elif seen[i] != r:
            return f"members of {u.starts[i]:X}..{u.ends[i]:X} disagree (at {c:X})"
        if r:
            m |= 1 << i
    return m


def source_of(hist, var="s"):
    return "\n".join([f"{var} = UnicodeSet()"] + [h if var == "s" else h.replace("s.", var + ".").replace("(s)", f"({var})") for h in hist])


class Explorer:
    """Breadth-first search over implementation states reachable by `ops`."""

    def __init__(self, ctx, u, UnicodeSet, check, ops=None, queries=True, cap=None):
        self.ctx, self.u, self.US, self.check = ctx, u, UnicodeSet, check
        self.ops = ops if ops is not None else unary_ops(u)
        self.queries = query_ops(u) if queries else []
        # An object with hidden fields may have many states per content: past the cap,
        # only states with a content not met before are audited and expanded.
        self.cap = cap or 4 << u.n
        self.masks = set()
        self.states = {}       # key -> mask
        self.parent = {}       # key -> (key, source)
        self.transitions = 0
        self.depth = 0
        self.bad_ops = {}

    def history(self, key):
        h = []
        while self.parent[key] is not None:
            key, src = self.parent[key]
            h.append(src)
        return h[::-1]

    def run(self):
        s0 = self.US()
        k0 = pickle.dumps(s0)
        self.states[k0] = 0
        self.parent[k0] = None
        frontier = [k0]
        current = None
        loads, dumps = pickle.loads, pickle.dumps
        try:
            with cpu_limit(300, "set operations"):
                while frontier:
                    nxt = []
                    for key in frontier:
                        mask = self.states[key]
                        for src, f, m in self.ops:
                            current = (key, src)
                            s = loads(key)
                            want = m(mask)
                            self.transitions += 1
                            try:
                                ret = f(s)
                            except Exception as e:  # noqa
                                self.report(key, src, f"raised {type(e).__name__}: {e}", want)
                                continue
                            self.settle(key, src, s, want, ret, nxt)
                        for src, f in self.queries:
                            current = (key, src)
                            s = loads(key)
                            self.transitions += 1
                            try:
                                f(s)
                            except Exception as e:  # noqa
                                self.report(key, src, f"raised {type(e).__name__}: {e}", mask)
                                continue
                            self.settle(key, src, s, mask, s, nxt)
                    frontier = nxt
                    if nxt:
                        self.depth += 1
        except Hang as e:
            self.report(current[0], current[1], str(e), None)
        return self

    def settle(self, key, src, s, want, ret, nxt):
        k2 = pickle.dumps(s)
        old = self.states.get(k2)
        if old is None:
            if len(self.states) >= self.cap:
                self.ctx.extra(state_cap_hit=True)
                if want in self.masks:
                    return
            try:
                msg = self.check(self.u, s, want, ret)
            except Exception as e:  # noqa
                msg = f"afterwards a query raised {type(e).__name__}: {e}"
            if msg:
                self.report(key, src, msg, want)
                return
            self.masks.add(want)
            self.states[k2] = want
            self.parent[k2] = (key, src)
            nxt.append(k2)
        elif old != want:
            self.report(key, src, f"left {self.u.fmt(old)}", want)
        if ret is not s and self.check_return and not src.startswith("s.clear"):
            self.report(key, src, f"returned {type(ret).__name__} instead of the set itself, so calls do not chain", want)

    check_return = False        # every mutator but clear() is documented to return the set

    def replay_all(self, env):
        """Re-execute the history of every state on one live object, from the
        constructor on, and demand the very state the search recorded, or at least one
        that answers like it."""
        n = 0
        for key in self.states:
            h = self.history(key)
            d = dict(env)
            exec(source_of(h), d)
            n += 1
            if pickle.dumps(d["s"]) != key:
                want = self.states[key]
                try:
                    if self.check(self.u, d["s"], want, d["s"]) is None and d["s"] == pickle.loads(key):
                        continue
                except Exception:  # noqa
                    pass
                self.ctx.violation("replay:" + "; ".join(h), f"after {'; '.join(h)} replayed on one live object the set is {d['s']}, "
                                   f"but step-wise execution on copies gives {pickle.loads(key)}",
                                   "import pickle\nUnicodeSet = load('UnicodeSet').UnicodeSet\n" + source_of(h) +
                                   f"\nwant = UnicodeSet()\nfor a, b in {self.u.ranges(self.states[key])!r}: want.addRange(a, b)\nbad = s != want\n")
        return n

    def report(self, key, src, what, want):
        chain = "do not chain" in what
        kind = src.split("(")[0]
        n = self.bad_ops[kind] = self.bad_ops.get(kind, 0) + 1
        self.ctx.nviol += 1
        if n > 3:
            return
        self.ctx.nviol -= 1
        hist = self.history(key) + [src]
        exp = "" if want is None else f"; expected {self.u.fmt(want)}"
        body = "UnicodeSet = load('UnicodeSet').UnicodeSet\n" + source_of(hist) + "\nprint('got', s)\n"
        if chain:
            body = "UnicodeSet = load('UnicodeSet').UnicodeSet\n" + source_of(hist[:-1]) + f"\nr = {src}\nbad = r is not s\n"
        elif want is not None:
            body += f"want = {self.u.ranges(want)!r}\nprint('want', want)\n" \
                    "def inside(c): return any(a <= c <= b for a, b in want)\n" \
                    f"bad = any(s.contains(c) != inside(c) for c in {sorted({p for p, _ in self.u.probes})!r}) or " \
                    "[(r.start, r.stop - 1) for r in s.getRanges()] != want\n"
        else:
            body = "from mc.common import cpu_limit\nwith cpu_limit(30):\n" + "\n".join("    " + x for x in body.splitlines()) + "\nbad = False\n"
        self.ctx.violation(f"{kind}:{'; '.join(hist)}", f"after {'; '.join(hist)}: {what}{exp}", body)


# -- sets of many ranges ------------------------------------------------------
# The searches above close over every content of a small universe; here the contents
# are few but long: patterns of up to some hundred ranges, with every operation applied
# at every cell of them, and every pair of patterns combined.
def layout(kind, n):
    """n cells: 'dense' (one to three code points each, the last one open) or 'spread'
    evenly over the code space."""
    if kind == "dense":
        starts, c = [], 0
        for i in range(n - 1):
            starts.append(c)
            c += (1, 2, 1, 3)[i % 4]
        return Universe(starts + [c])
    return Universe([i * HIGH // n for i in range(n)])


def patterns(n):
    """name -> mask over n cells"""
    def of(f):
        return sum(1 << i for i in range(n) if f(i))
    return {"none": 0, "all": (1 << n) - 1, "even": of(lambda i: i % 2 == 0), "odd": of(lambda i: i % 2), "third": of(lambda i: i % 3 == 1),
            "thirds": of(lambda i: i % 3), "low": of(lambda i: i % 2 and i < n // 2), "high": of(lambda i: i % 2 == 0 and i >= n // 2),
            "ends": 1 | 1 << (n - 1), "blocks": of(lambda i: i // 8 % 2), "hole": of(lambda i: i % 2 or n // 3 < i < 2 * n // 3),
            "one": 1 << n // 2}


SPANS = (0, 1, 2, 3, 8, 17)


def large_moves(u, i):
    """The operations applied at cell i: (source, mask function)."""
    a, z = u.starts[i], u.ends[i]
    out = []
    for d in SPANS + (u.n - 1 - i,):
        j = i + d
        if j < u.n:
            e, b = u.ends[j], u.mask(i, j)
            out += [(f"s.addRange({a:#x}, {e:#x})", lambda m, b=b: m | b), (f"s.removeRange({a:#x}, {e:#x})", lambda m, b=b: m & ~b),
                    (f"s.retainRange({a:#x}, {e:#x})", lambda m, b=b: m & b), (f"s.complementRange({a:#x}, {e:#x})", lambda m, b=b: m ^ b)]
    if a == z:
        b = 1 << i
        out += [(f"s.add({a:#x})", lambda m: m | b), (f"s.remove({a:#x})", lambda m: m & ~b), (f"s.complement({a:#x})", lambda m: m ^ b)]
    return out


LARGE_BINARY = [("s.addAll(t)", lambda a, b: a | b), ("s.retainAll(t)", lambda a, b: a & b), ("s.removeAll(t)", lambda a, b: a & ~b),
                ("s.complementAll(t)", lambda a, b: a ^ b), ("s = s | t", lambda a, b: a | b), ("s = s & t", lambda a, b: a & b),
                ("s = s - t", lambda a, b: a & ~b), ("s = s ^ t", lambda a, b: a ^ b)]


def build_large(US, u, mask):
    s = US()
    for a, b in u.ranges(mask):
        s.addRange(a, b)
    return s


def orders(n):
    """Orders in which the cells of a pattern come and go."""
    k = max(1, (n - 1).bit_length())
    return {"ascending": list(range(n)), "descending": list(range(n - 1, -1, -1)),
            "inward": [i // 2 if i % 2 == 0 else n - 1 - i // 2 for i in range(n)],
            "scattered": [i for i in (int(f"{j:0{k}b}"[::-1], 2) for j in range(1 << k)) if i < n]}


def large(ctx, US, check, kind, n, part):
    """check(u, s, mask) -> None or what is wrong.  part: 'moves', 'pairs' or 'orders'."""
    u = layout(kind, n)
    P = patterns(n)
    bad = states = moves = 0

    def wrong(lines, want, msg):
        nonlocal bad
        bad += 1
        if bad > 3:
            ctx.nviol += 1
            return
        body = ("UnicodeSet = load('UnicodeSet').UnicodeSet\nfrom mc import usets\n"
                f"u = usets.layout({kind!r}, {n})\nP = usets.patterns({n})\nbuild = lambda p: usets.build_large(UnicodeSet, u, P[p])\n"
                + "\n".join(lines) + f"\nwant = {u.ranges(want)!r}\ngot = [(r.start, r.stop - 1) for r in s.getRanges()]\n"
                "def inside(c): return any(a <= c <= b for a, b in want)\n"
                "print(got)\nprint(want)\nbad = got != want or any(s.contains(c) != inside(c) for c, _ in u.probes)\n")
        ctx.violation(f"large:{kind}:{n}:" + ";".join(lines), f"{kind} {n} cells: {'; '.join(lines)}: {msg}", body)

    def test(lines, env, want):
        nonlocal states
        try:
            for l in lines:
                exec(l, env)
            msg = check(u, env["s"], want)
        except Exception as e:  # noqa
            msg = f"{type(e).__name__}: {e}"
        states += 1
        if msg:
            wrong(lines, want, msg)

    base = {p: build_large(US, u, m) for p, m in P.items()}
    keys = {p: pickle.dumps(s) for p, s in base.items()}
    env = {"UnicodeSet": US, "build": lambda p: pickle.loads(keys[p])}
    cur = ""
    try:
        with cpu_limit(300, "operations on sets of many ranges"):
            for p, m in P.items():
                test([f"s = build({p!r})"], env, m)
            if part == "moves":
                # every cell, or of very many the ends, the middle and some between
                cells = [i for i in range(n) if n <= 150 or i < 12 or n - i < 12 or abs(i - n // 2) < 12 or i % (n // 32) == 1]
                for p, m in P.items():
                    for i in cells:
                        for src, f in large_moves(u, i):
                            cur = f"{p} {src}"
                            moves += 1
                            test([f"s = build({p!r})", src], env, f(m))
            elif part == "pairs":
                for p, m in P.items():
                    for q, k in P.items():
                        for src, f in LARGE_BINARY:
                            cur = f"{p} {q} {src}"
                            moves += 1
                            test([f"s = build({p!r})", f"t = build({q!r})", src], env, f(m, k))
            else:
                for p in ("even", "odd", "thirds", "all", "hole"):
                    for name, order in orders(n).items():
                        cells = [i for i in order if P[p] >> i & 1]
                        env["s"] = US()
                        m, lines = 0, ["s = UnicodeSet()"]
                        for f, g in (("addRange", lambda m, b: m | b), ("removeRange", lambda m, b: m & ~b), ("complementRange", lambda m, b: m ^ b)):
                            for k, i in enumerate(cells):
                                src = f"s.{f}({u.starts[i]:#x}, {u.ends[i]:#x})"
                                cur = src
                                lines.append(src)
                                m = g(m, 1 << i)
                                moves += 1
                                before = bad
                                try:
                                    exec(src, env)
                                    msg = check(u, env["s"], m) if n <= 150 or k % (n // 32) == 0 or k + 1 == len(cells) else None
                                except Exception as e:  # noqa
                                    msg = f"{type(e).__name__}: {e}"
                                states += 1
                                if msg:
                                    wrong(lines[:], m, msg)
                                if bad > before:
                                    return
    except Hang as e:
        ctx.violation(f"large:{kind}:{n}:hang", f"{kind} {n} cells, {cur}: {e}", "bad = True")
    finally:
        ctx.count(states=states, transitions=moves, traces=1)


def large_jobs(US, check, sizes):
    return [(US, check, kind, n, part) for n in sizes for kind in ("dense", "spread") for part in ("moves", "pairs", "orders")]


def same_members(u, s, want):
    bits = bin(want | 1 << u.n)[:2:-1]
    for c, i in u.probes:
        if s.contains(c) is not (bits[i] == "1"):
            return f"contains({c:#x}) is {s.contains(c)}"
    return None


def same_ranges(u, s, want):
    got = [(r.start, r.stop - 1) for r in s.getRanges()]
    exp = u.ranges(want)
    if got != exp:
        k = next((k for k, (g, w) in enumerate(zip(got, exp)) if g != w), min(len(got), len(exp)))
        return f"range {k} of {len(got)} is {got[k:k + 1]}, expected {exp[k:k + 1]} of {len(exp)}"
    return None
