"""C24: the data file is loaded completely or not at all.

Schedules: the real loader under a controlled scheduler (every thread stops before
every line, or in the thorough tier before every bytecode, of the loading module);
all schedules up to a preemption bound, each from a fresh module.  Every thread
loads and then looks up and reads every item.
Faults: an error from every single call made during a load (file operations, the
unpacker, the loader's own functions), the file missing, empty, a directory, and
truncated at every length; then the same process loads again with the complete
file.
"""
import importlib.util
import os
import sys
import threading
import time

from .. import common, icupkg
from ..sched import CoopLock, Sched, compress, fingerprint, _Lock, _RLock
from ..common import cpu_limit
from . import c23

# short names: the loader's per-character steps multiply the schedules
ITEMS = [("a", c23.pack(dict(c23.base_header(), dvMicro=1)) + b"names"), ("b", b"rootdata")]
BLOB, OFFS = icupkg.package(ITEMS, "p")

class Fault(Exception):
    pass


def read_all(D):
    """What a user of the data sees."""
    out = []
    for name, body in reversed(ITEMS):
        o = D.getDataOffset(name)
        out.append((o, bytes(D.getData(o, o + len(body)))))
        if name == "a":
            o, h = D.getDataOffsetAndHeader(name)
            out.append((o, h.headerLength, h.dvMicro))
    return out


WANT = []
for _n, _b in reversed(ITEMS):
    WANT.append((OFFS[_n], _b))
    if _n == "a":
        WANT.append((OFFS[_n], 32, 1))


_code = {}


def fresh():
    CoopLock.waiting.clear()
    threading.Lock, threading.RLock = CoopLock, lambda: CoopLock(True)
    try:
        root = common.scratch()
        m = sys.modules.get("UnicodeData.ICUDataFile")
        if root not in _code or _code[root] is None or m is None:
            D = c23.install(root, BLOB)
            m = sys.modules["UnicodeData.ICUDataFile"]
            _code[root] = m.__spec__, m.__spec__.loader.get_code(m.__name__)
            if common.forget() != ["ICUDataFile"]:
                _code[root] = None      # the loader is spread over several modules: import them all anew
                return c23.install(root, BLOB)
            sys.modules["UnicodeData.ICUDataFile"] = m
            return D
        write(BLOB)
        # as if imported anew, without compiling it again
        spec, code = _code[root]
        m = importlib.util.module_from_spec(spec)
        sys.modules[spec.name] = m
        exec(code, m.__dict__)
        return m.ICUData
    finally:
        threading.Lock, threading.RLock = _Lock, _RLock


def scenario(name):
    """Fresh loader and the thread bodies."""
    D = fresh()

    def load():
        return read_all(D())

    def twice():
        a = D()
        D()
        return read_all(a)
    if name == "2":
        return [load, load]
    if name == "2x":
        return [twice, load]
    if name == "3":
        return [load, load, load]
    if name == "peek":
        # one thread holds an instance made before another thread loads
        def peek():
            d = D.__new__(D)
            D()
            return read_all(d)
        return [peek, load]
    raise KeyError(name)


def outcome(results):
    bad = []
    for i, r in enumerate(results):
        if isinstance(r, BaseException):
            bad.append(f"thread {i}: {type(r).__name__}: {r}")
        elif r != WANT:
            bad.append(f"thread {i} read {r!r}")
    return bad


def execute(name, prefix, opcodes, bound=0):
    fns = scenario(name)
    return Sched(os.path.join(common.scratch(), "UnicodeData", ""), opcodes).run(fns, prefix, bound)


REPLAY = '''from mc.checks import c24
res, made, alts, states = c24.execute({name!r}, {prefix!r}, {opcodes!r})
bad = c24.outcome(res) if res else ["deadlock"]
print(chr(10).join(bad))'''


def explore(sub, name, opcodes, bound, part, parts, end):
    """Depth-first over all schedules with at most `bound` preemptions; the subtrees
    of the first execution are dealt out over `parts` workers."""
    common.unload()
    common.stage(b"")
    seen = set()
    runs = nv = 0
    stack = [([], 0)]
    first = True
    while stack:
        if time.time() > end:
            sub.cov["capped"] = 1
            break
        prefix, frm = stack.pop()
        res, made, alts, states = execute(name, prefix, opcodes, bound)
        count = not first or part == 0
        if count:
            runs += 1
            sub.count(transitions=len(made))
            seen.update(states)
            bad = ["no thread can go on"] if res is None else outcome(res)
            if bad and nv < 4:
                nv += 1
                sub.violation(f"schedule:{name}:{''.join(map(str, made))}"[:200],
                              f"{name} threads, schedule {compress(made)}: " + "; ".join(bad)[:600],
                              REPLAY.format(name=name, prefix=made, opcodes=opcodes))
            if res is None:
                break
        else:
            seen.update(states)
        k = 0
        for i in range(len(made) - 1, frm - 1, -1):
            for a in alts[i]:
                k += 1
                if first and k % parts != part:
                    continue
                stack.append((made[:i] + [a], i + 1))
        first = False
    sub.count(traces=runs)
    sub.extra(**{f"schedules_{name}_{'opcode' if opcodes else 'line'}_bound{bound}": runs})
    # positions are (function, line, bytecode) of every thread
    sub.cov["positions"] = {hash((name, opcodes, s)) for s in seen}
    if runs and part == 0:
        sub.sample({"scenario": name, "schedule": compress(made)})


def modules():
    """The modules whose state the loader may change."""
    return [m for k, m in sorted(sys.modules.items()) if k.startswith("UnicodeData.") and m is not None]


def search(sub, name, opcodes, prefixes, seen, end):
    """One round: run each prefix to its end without further preemption, and note every
    state met for the first time, with the threads that could have gone on instead."""
    common.unload()
    common.stage(b"")
    root = common.scratch()
    mine, out, nv, runs = set(), [], 0, 0
    for prefix in prefixes:
        if time.time() > end:
            sub.cov["capped"] = 1
            break
        fns = scenario(name)
        mods = modules()
        s = Sched(os.path.join(common.scratch(), "UnicodeData", ""), opcodes)

        def mark(sched):
            h = fingerprint(sched, mods, root)
            if h in seen or h in mine:
                sched.quiet = True
                return None
            mine.add(h)
            return h
        s.fingerprint = mark
        res, made, alts, states = s.run(fns, unpack(prefix), 1 << 30)
        runs += 1
        sub.count(transitions=len(made))
        bad = ["no thread can go on"] if res is None else outcome(res)
        if bad and nv < 4:
            nv += 1
            sub.violation(f"schedule:{name}:{''.join(map(str, made))}"[:200], f"{name} threads, schedule {compress(made)}: " + "; ".join(bad)[:600],
                          REPLAY.format(name=name, prefix=made, opcodes=opcodes))
        if res is None:
            break
        for i, h in enumerate(s.marks):
            if h is not None:
                out.append((h, [rle(made[:i] + [a]) for a in alts[i]]))
    sub.count(traces=runs)
    sub.cov["found"] = out


def rle(made):
    out = []
    for c in made:
        if out and out[-2] == c:
            out[-1] += 1
        else:
            out += [c, 1]
    return tuple(out)


def unpack(r):
    return [c for c, n in zip(r[::2], r[1::2]) for _ in range(n)]


def match(ctx, name, opcodes, end):
    """All schedules of the scenario, with any number of preemptions, up to states met before."""
    global _seen
    _seen = set()
    frontier, rounds = [()], 0
    while frontier and ctx.nviol < 20 and not ctx.cov.get("capped"):
        n = min(len(frontier), common.NCPU * 4)
        if os.environ.get("MC_DEBUG"):
            print(name, rounds, len(frontier), len(_seen), round(time.time() - ctx.t0), flush=True)
        rounds += 1
        found = []
        common.parallel(ctx, _search, [(name, opcodes, frontier[i::n], end) for i in range(n)], lambda r: found.extend(r["cov"].pop("found", ())))
        frontier = []
        for h, more in found:
            if h not in _seen:
                _seen.add(h)
                frontier += more
    ctx.count(states=len(_seen))
    kind = f"{name}_{'opcode' if opcodes else 'line'}"
    ctx.extra(**{f"states_{kind}": len(_seen), f"rounds_{kind}": rounds})


def _search(sub, name, opcodes, prefixes, end):
    search(sub, name, opcodes, prefixes, _seen, end)


# ------------------------------------------------------------------ faults

def path():
    return os.path.join(common.scratch(), "UnicodeData", "Data", "icudata.dat")


def write(blob):
    with open(path(), "wb") as f:
        f.write(blob)


def retry(D):
    """After a failed load: the complete file must load."""
    try:
        got = read_all(D())
    except Exception as e:
        return f"the next load fails with {type(e).__name__}: {e}"
    return None if got == WANT else f"the next load gives {got!r}"


def fault_at(step):
    """Load with an error raised by the step-th call of a function of the loading
    module, of the unpacker, or of the file.  Returns (which call, problem)."""
    D = fresh()
    m = sys.modules["UnicodeData.ICUDataFile"]
    package = os.path.join(common.scratch(), "UnicodeData", "")
    n = [0]

    def tick(what):
        n[0] += 1
        if n[0] == step:
            raise Fault(what)

    class File:
        def __init__(self, *a, **k):
            tick("open")
            self.f = open(*a, **k)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.f.close()

        def __getattr__(self, name):
            got = getattr(self.f, name)
            if name == "close" or not callable(got):
                return got

            def call(*a, **k):
                tick("file." + name)
                return got(*a, **k)
            return call

    def trace(frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(package) or "fontTools" in f:
            tick(frame.f_code.co_name)
        return None
    where = None
    m.open = File
    sys.settrace(trace)
    try:
        try:
            D()
        finally:
            sys.settrace(None)
            del m.open
    except Fault as e:
        where = str(e)
    if where is None:
        return None, None
    return where, retry(D)


def truncated(n):
    fresh()
    D = sys.modules["UnicodeData.ICUDataFile"].ICUData
    write(BLOB[:n])
    raised = False
    try:
        D()
    except Exception:
        raised = True
    write(BLOB)
    # a file cut inside an item's data is not recognisable: only a load that failed must be retried
    return raised, retry(D) if raised else None


def missing(kind):
    fresh()
    D = sys.modules["UnicodeData.ICUDataFile"].ICUData
    os.unlink(path())
    if kind == "directory":
        os.mkdir(path())
    elif kind == "empty":
        write(b"")
    try:
        D()
        raised = False
    except Exception:
        raised = True
    if os.path.isdir(path()):
        os.rmdir(path())
    write(BLOB)
    if not raised:
        return "loading succeeds without a data file"
    return retry(D)


def _faults(sub):
    common.unload()
    common.stage(b"")
    nv, step, where = 0, 1, []
    while True:
        w, bad = fault_at(step)
        if w is None:
            break
        where.append(w)
        if bad and nv < 4:
            nv += 1
            sub.violation(f"fault:{w}:{step}", f"an error from {w} (call {step}) leaves a partial load: {bad}",
                          f"from mc.checks import c24\nw, bad = c24.fault_at({step})\nprint(w, bad)")
        step += 1
    sub.count(states=len(set(where)), transitions=len(where), traces=len(where))
    sub.sample({"faults": " ".join(where)[:300]})
    cut = 0
    for n in range(len(BLOB)):
        raised, bad = truncated(n)
        cut += raised
        if bad:
            sub.violation(f"truncated:{n}", f"a file cut at {n} bytes leaves a partial load: {bad}",
                          f"from mc.checks import c24\nr, bad = c24.truncated({n})\nprint(bad)")
        if not raised and n < min(OFFS.values()) - 32:
            sub.violation(f"accepted:{n}", f"a file cut at {n} bytes, inside its table of contents, is accepted",
                          f"from mc.checks import c24\nr, _ = c24.truncated({n})\nbad = not r")
    sub.count(states=len(BLOB), transitions=len(BLOB), traces=cut)
    for kind in ("missing", "directory", "empty"):
        bad = missing(kind)
        sub.count(states=1, transitions=1, traces=1)
        if bad:
            sub.violation("file:" + kind, f"data file {kind}: {bad}", f"from mc.checks import c24\nbad = c24.missing({kind!r})\nprint(bad)")
    sub.extra(fault_points=len(where), truncations=len(BLOB), truncations_detected=cut)


def run(ctx):
    N = common.NCPU
    plan = [("2", False, 2), ("peek", False, 2), ("2x", False, 1), ("3", False, 1)]
    if ctx.thorough:
        plan = [("2", False, 2), ("peek", False, 2), ("2x", False, 2), ("3", False, 2), ("2", True, 1)]
    jobs = []
    end = ctx.t0 + (36000 if ctx.thorough else 500)       # only code much slower than the present one gets there
    for name, op, bound in plan:
        n = N * 6 if bound > 1 else N
        for p in range(n):
            jobs.append((name, op, bound, p, n, end))
    common.parallel(ctx, _job, [("faults",)] + jobs)
    if not ctx.violations:
        for name, op in STATES[ctx.tier]:
            match(ctx, name, op, end)
    ctx.count(states=len(ctx.cov.pop("positions", ())))
    ctx.extra(exhaustive=not ctx.cov.get("capped"))
    ctx.cov["rule"] = ("state = positions of all threads before a step / a fault point / a truncation; "
                       "transition = one scheduled step; trace = one complete execution of the real loader")
    ctx.dat = "small"
    ctx.assumptions += ["threads switch only between lines (thorough also: bytecodes) of the loading module; CPython's own calls are atomic",
                        "a file truncated inside an item's data is not recognisable as such"]


STATES = {"quick": [("2", False), ("2x", False), ("peek", False)],
          "thorough": [("2", False), ("2x", False), ("peek", False), ("2", True), ("2x", True), ("peek", True)]}


def _job(sub, *a):
    if a == ("faults",):
        _faults(sub)
    else:
        explore(sub, *a)
