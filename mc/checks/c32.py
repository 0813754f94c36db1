"""C32: threads that only read do not disturb each other.

(In a process that has asked nothing before, and in one that has.)
Two threads, each with one or two questions or a listing, on the real code under the
controlled scheduler (mc/sched.py): every thread stops before every line of the
package; all schedules up to a preemption bound.  Each thread must see what it sees
alone.  Scenarios:
  lookups: every accessor with itself, on two code points for each way through its code
  and one for each two ways, and in a ring with the next
  listings: two listings of one trie, of the names, of one set; a listing and lookups
  sets: operations that share an operand, queries of one set
  data: readers of the loaded data file.
"""
import itertools
import json
import os
import pickle
import sys
import time

from .. import accessors, common
from ..common import load, need
from ..sched import CoopLock, Sched, compress

MORE = set()    # scenarios explored more deeply in the thorough tier only
BODIES = {}     # scenario -> [(label, body)], filled before forking


def capture(fn):
    try:
        return fn()
    except Exception as e:
        return f"{type(e).__name__}: {e}"


ALONE = "what it sees alone"


def child(fn, *args):
    """fn(*args) in a process of its own, so that this one asks the package nothing."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                blob = pickle.dumps((True, fn(*args)))
            except BaseException as e:  # noqa
                blob = pickle.dumps((False, f"{type(e).__name__}: {e}"))
            with os.fdopen(w, "wb") as f:
                f.write(blob)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        blob = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(blob) if blob else (False, "the process ended")


def trail(fn, c):
    """The lines of the package that a question executes."""
    lines = set()
    package = os.path.join(common.scratch(), "UnicodeData") + "/"

    def local(frame, event, arg):
        lines.add((frame.f_code.co_name, frame.f_lineno))
        return local
    sys.settrace(lambda frame, event, arg: local if frame.f_code.co_filename.startswith(package) else None)
    try:
        fn(c)
    except Exception:
        pass
    finally:
        sys.settrace(None)
    return frozenset(lines)


def candidates(ref):
    """Code points with as many different values, and different distances of value and
    code point, as possible."""
    out = {}
    for c in accessors.COMMON:
        out[c] = None
    seen = set()
    for c in range(0x110000):
        v = ref[c]
        k = ("delta", v - c) if type(v) is int and v > 0x100 and v != c else ("delta", ord(v[0]) - c) if type(v) is str and v and v != chr(c) else repr(v)
        if k not in seen and len(seen) < 400:
            seen.add(k)
            out[c] = None
    return list(out)


def points(i):
    """For accessor i, the code points to ask about, two for every way through the code:
    [(group, code point, answer)]."""
    a = accessors.all_accessors()[i] if isinstance(i, int) else i
    ref = a.ref
    ways = {}
    for c in candidates(ref):
        ways.setdefault(trail(a.fn, c), []).append(c)
    out = []
    for g, cs in enumerate(sorted(ways.values(), key=lambda cs: (-len(cs), cs))[:6]):
        lo = next((c for c in cs if 0x20 < c < 0xD800 and ref[c]), cs[0])
        hi = next((c for c in reversed(cs) if ref[c] != ref[lo]), cs[-1])
        out += [(g, c, ref[c]) for c in dict.fromkeys((lo, hi))]
    return out


def all_points():
    acc = accessors.all_accessors()
    return [points(a) for a in acc]


def scenarios():
    out = {}
    acc = accessors.all_accessors(tables=False)
    names = {int(c, 16): v for c, v in json.loads(common.read_data("names.json.xz"))["name"].items()}
    CN = need(load("CharNames"), "CharNames")
    ok, pts = child(all_points)
    if not ok:
        raise RuntimeError(pts)

    def q(i, p):
        a = acc[i]
        return (f"{a.label}(U+{p[1]:04X})", lambda: a.fn(p[1]), p[2])
    for i, a in enumerate(acc):
        for p, r in itertools.combinations(pts[i], 2):
            if p[0] or r[0]:
                MORE.add(f"{a.label} {p[1]:X} {r[1]:X}")
            if p[0] == r[0] or p[1] in [x[1] for x in pts[i] if x[0] == p[0]][:1]:
                out[f"{a.label} {p[1]:X} {r[1]:X}"] = [q(i, p), q(i, r)]
        if len(pts[i]) == 1:
            out[f"{a.label} twice"] = [q(i, pts[i][0])] * 2
        j = (i + 1) % len(acc)
        out[f"{a.label} and {acc[j].label}"] = [q(i, pts[i][0]), q(j, pts[j][-1])]
    names_of = lambda c: (f"getCharName(U+{c:04X})", lambda: CN.getCharName(c), names.get(c, ""))
    for c, d in ((0x20, 0x1F600), (0x41, 0x61), (0x4E00, 0x3400), (0xAC01, 0x41), (0xAC01, 0xD7A3), (0x10FFFF, 0xD800)):
        out[f"getCharName {c:X} {d:X}"] = [names_of(c), names_of(d)]
    out["charFromName"] = [("charFromName('SPACE')", lambda: CN.charFromName("SPACE"), 0x20),
                           ("charFromName('DOLLAR SIGN')", lambda: CN.charFromName("DOLLAR SIGN"), 0x24)]

    def take(make, n):
        return lambda: list(itertools.islice(make(), n))

    def lst(label, make, n):
        return (label, take(make, n), ALONE)
    for mod, name in (("CharProps", "propsTrie"), ("CharProps", "propsVectorTrie"), ("BidiProps", "bidiPropsTrie"), ("CaseProps", "casePropsTrie"),
                      ("LayoutProps", "inpcTrie"), ("LayoutProps", "inscTrie"), ("LayoutProps", "voTrie")):
        t = need(load(mod), name)
        a, b = (lambda t=t: t.enumerator(0x20, 0x60)), (lambda t=t: t.enumerator(0x2E00, 0x11000))
        out[f"{name} listings"] = [lst("enumerator(20, 60)", a, 3), lst("enumerator(2E00, 11000)", b, 3)]
        out[f"{name} listing and lookup"] = [lst("enumerator(20, 60)", a, 3), ("get(11000), get(41)", lambda t=t: (t.get(0x11000), t.get(0x41)), ALONE)]
    out["nameIterator"] = [lst("nameIterator()", lambda: CN.nameIterator(), 2), lst("nameIterator() again", lambda: CN.nameIterator(), 1)]
    out["nameIterator and getCharName"] = [lst("nameIterator()", lambda: CN.nameIterator(), 2), names_of(0x1F600)]

    US = load("UnicodeSet").UnicodeSet
    shared = US(range(3, 9)).addRange(0x20, 0x30)
    other = US(range(5, 0x25))
    third = US(range(0, 2)).add(0x28)
    rng = lambda s: [(r.start, r.stop) for r in s.getRanges()]
    ops = {
        "|": (lambda: rng(other | shared), [(3, 0x31)]),
        "&": (lambda: rng(other & shared), [(5, 9), (0x20, 0x25)]),
        "-": (lambda: rng(other - shared), [(9, 0x20)]),
        "^": (lambda: rng(other ^ shared), [(3, 5), (9, 0x20), (0x25, 0x31)]),
        "mutate": (lambda: rng(US(third).addAll(shared).remove(4).complementRange(2, 6)), [(0, 3), (4, 5), (7, 9), (0x20, 0x31)]),
        "query": (lambda: (shared.contains(8), shared.indexOf(0x20), shared.charAt(7), shared.size(), shared.contains(range(3, 10))), (True, 6, 0x21, 23, False)),
        "iterate": (lambda: list(shared)[:7], [3, 4, 5, 6, 7, 8, 0x20]),
    }
    for x, y in itertools.combinations_with_replacement(ops, 2):
        out[f"sets {x} {y}"] = [(f"sets {x}", ops[x][0], ops[x][1]), (f"sets {y}", ops[y][0], ops[y][1])]
    ID = load("ICUDataFile").ICUData
    D = ID()

    def read(name):
        o, h = D.getDataOffsetAndHeader(name)
        return (o == D.getDataOffset(name), h.headerLength, h.dataFormat, len(D.getData(o, o + 64)))
    for x, y in itertools.combinations(("unames.icu", "ulayout.icu", "nfkc.nrm"), 2):
        out[f"data {x} {y}"] = [(x, lambda x=x: read(x), ALONE), (y, lambda y=y: read(y), ALONE)]
    for name, bodies in out.items():
        for k, (label, fn, want) in enumerate(bodies):
            if want is ALONE:
                bodies[k] = (label, fn, child(capture, fn)[1])
    return out


def execute(name, prefix, opcodes, bound=0):
    CoopLock.waiting.clear()
    fns = [(lambda f=f: capture(f)) for _, f, _ in BODIES[name]]
    return Sched(os.path.join(common.scratch(), "UnicodeData") + "/", opcodes).run(fns, prefix, bound)


def outcome(name, res):
    return [f"{lab} gives {r!r}, expected {w!r}" for r, (lab, _, w) in zip(res, BODIES[name]) if r != w]


REPLAY = '''from mc.checks import c32
c32.prepare()
res, made, alts, states = c32.execute({name!r}, {prefix!r}, {opcodes!r})
bad = c32.outcome({name!r}, res) if res else ["deadlock"]
print(chr(10).join(bad))'''


def prepare():
    """Import with cooperative locks, so that locks of the package never block the scheduler."""
    import logging.handlers  # noqa: F401  (only the package's own locks are to be replaced)
    import threading
    import fontTools.misc.sstruct  # noqa: F401
    import pkg_resources  # noqa: F401
    keep = threading.Lock, threading.RLock
    threading.Lock, threading.RLock = CoopLock, lambda: CoopLock(True)
    try:
        BODIES.update(scenarios())
    finally:
        threading.Lock, threading.RLock = keep


def explore(sub, name, opcodes, bound, cap, end, cold, sparse):
    """cold: every execution in a process that has asked the package nothing before.
    sparse: only the first four times at a place are preempted there."""
    seen = set()
    visits = {}
    runs = nv = 0
    stack = [([], 0)]
    done = True
    while stack:
        prefix, frm = stack.pop()
        if cold:
            ok, got = child(execute, name, prefix, opcodes, bound)
            res, made, alts, states = got if ok else ([got] * 2, prefix, [()] * len(prefix), [])
        else:
            res, made, alts, states = execute(name, prefix, opcodes, bound)
        runs += 1
        sub.count(transitions=len(made))
        seen.update(states)
        bad = ["no thread can go on"] if res is None else outcome(name, res)
        if bad:
            nv += 1
            if nv < 3:
                sub.violation(f"schedule:{name}:{''.join(map(str, made))}"[:200], f"{name}, schedule {compress(made)}: " + "; ".join(bad)[:600],
                              REPLAY.format(name=name, prefix=made, opcodes=opcodes))
            if res is None or nv > 20:
                break
        if runs >= cap or time.time() > end:
            done = not stack
            break
        places = range(frm, len(made))
        if sparse:
            done = False
            visits.clear()
            some = []
            for i in places:
                visits[states[i]] = visits.get(states[i], 0) + 1
                if visits[states[i]] <= 4:
                    some.append(i)
            places = some
        for i in reversed(places):
            for a in alts[i]:
                stack.append((made[:i] + [a], i + 1))
    sub.count(states=len(seen), traces=runs)
    kind = f"bound{bound}_{'opcode' if opcodes else 'line'}{'_cold' if cold else ''}"
    sub.extra(**{f"scenarios_{kind}": 1, f"schedules_{kind}": runs})
    if not done:
        sub.cov["capped"] = sub.cov.get("capped", 0) + 1
    if len(sub.cov["samples"]) < 1:
        sub.sample({"scenario": name, "schedule": compress(made)})


class _Long(BaseException):
    pass


LONGEST = 20000
SPARSE = 3000


def alone(sub, names):
    """Every question by itself, as the first and as the second one of a process."""
    for name in names:
        for k, (lab, f, w) in enumerate(BODIES[name]):
            ok, got = child(lambda: [capture(f), capture(f)])
            sub.count(states=1, transitions=2, traces=1)
            if got != [w, w]:
                sub.violation(f"alone:{name}:{lab}", f"{lab}, asked twice, gives {got!r}, expected {w!r}",
                              f"from mc.checks import c32\nc32.prepare()\nlab, f, w = c32.BODIES[{name!r}][{k}]\nbad = [c32.capture(f), c32.capture(f)] != [w, w]")


def length(name):
    """Steps of the two threads, one after the other, up to LONGEST: the first time, and then."""
    n = [0]
    package = os.path.join(common.scratch(), "UnicodeData") + "/"

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] > LONGEST:
                raise _Long
        return local

    def trace(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(package) else None
    out = []
    for _ in range(2):
        n[0] = 0
        for _, f, _ in BODIES[name]:
            sys.settrace(trace)
            try:
                f()
            except (_Long, Exception):
                pass
            finally:
                sys.settrace(None)
        out.append(n[0] + 2)
    return out


def _lengths(sub, names):
    got = {}
    for name in names:
        ok, v = child(length, name)
        got[name] = v if ok else [LONGEST + 1] * 2
    sub.cov["lengths"] = got


def cap(n):
    """A limit on the executions of one scenario, far above what the present code needs."""
    return max(300, 12_000_000 // n)


def run(ctx):
    ctx.stage("small")
    prepare()
    common.parallel(ctx, alone, [(list(BODIES)[k::64],) for k in range(64)])
    if ctx.violations:
        return
    lengths = {}
    common.parallel(ctx, _lengths, [(list(BODIES)[k::64],) for k in range(64)], lambda r: lengths.update(r["cov"].pop("lengths", {})))
    jobs, colds = [], []
    end = ctx.t0 + (36000 if ctx.thorough else 500)       # only code much slower than the present one gets there
    for name in BODIES:
        first, n = lengths[name]
        if first > LONGEST or n > LONGEST:
            ctx.extra(scenarios_too_long=1)      # none in the present code
            continue
        colds.append((first ** 2, (name, False, 2 if ctx.thorough and first <= 60 else 1, cap(first), end - 150, True, first > SPARSE)))
        # bound 2 costs about n^2/2 executions of n steps
        b = 2 if n <= ((0 if name in MORE else 70) if not ctx.thorough else 220) else 1
        jobs.append((n ** (b + 1), (name, False, b, cap(n), end, False, n > SPARSE)))
        if ctx.thorough and n <= 60:
            jobs.append((n ** 2 * 60, (name, True, 1, cap(6 * n), end, False, False)))
    for work in (colds, jobs):
        work.sort(key=lambda j: -j[0])
        common.parallel(ctx, explore, [j[1] for j in work])
    ctx.extra(longest_scenario=max(max(v) for v in lengths.values()))
    ctx.extra(scenarios=len(BODIES), exhaustive=not (ctx.cov.get("capped") or ctx.cov.get("scenarios_too_long")))
    ctx.cov["rule"] = "state = positions of both threads before a step; transition = one scheduled step; trace = one complete execution of the real code"
    ctx.assumptions.append("threads switch only between lines (thorough also: bytecodes) of the package; nothing is mutated by one thread while another uses it")
