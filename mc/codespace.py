"""Exhaustive checking of code point functions against the reference tables.

The model is the table (a function from all 0x110000 code points); the code
under test is driven through complete sweeps of the code space:
  sweep A: one function at a time, ascending;
  sweep B: all functions at every code point, descending;
so every function is asked about every code point twice, after two different
histories.  Thorough adds sweep C: a stride permutation of the code space.
"""
import json

from . import common

N = 0x110000
_tables = None


def tables():
    global _tables
    if _tables is None:
        _tables = json.loads(common.read_data("tables.json.xz"))
        for k, v in json.loads(common.read_data("norm.json.xz")).items():
            _tables["norm:" + k] = v
        for k, v in json.loads(common.read_data("case.json.xz")).items():
            _tables["case:" + k] = v
    return _tables


IDENTITY = {"mirror": False, "bpb": False, "lower": False, "upper": False, "title": False,
            "fullLower": True, "fullUpper": True, "fullTitle": True}


def expand(name):
    """The reference table as a list of 0x110000 values."""
    if name in CONST:
        return [CONST[name]] * N
    out = []
    for n, v in tables()[name]:
        out.extend([v] * n)
    if name in IDENTITY:
        for c, v in enumerate(out):
            if v is None:
                out[c] = chr(c) if IDENTITY[name] else c
    assert len(out) == N
    return out


CONST = {"false": False, "zero": 0}
_ref = {}      # table name -> list, filled before forking
_fns = []      # (label, table name, function, replay expression)


def _sweep(sub, order, lo, hi):
    pid_fns = _fns
    nv = 0

    def bad(label, tab, expr, c, got, want):
        nonlocal nv
        nv += 1
        if nv <= 20:
            sub.violation(f"{label}:{c:04X}", f"{label}(U+{c:04X}) is {got!r}, the reference says {want!r}",
                          f"want = {want!r}\ngot = {expr.format(c=hex(c))}\nprint(repr(got), repr(want))\nbad = got != want")
        else:
            sub.nviol += 1

    if order == "A":
        for label, tab, fn, expr in pid_fns:
            ref = _ref[tab]
            for c in range(lo, hi):
                try:
                    got = fn(c)
                except Exception as e:
                    got = f"{type(e).__name__}: {e}"
                if got != ref[c]:
                    bad(label, tab, expr, c, got, ref[c])
        rng = range(lo, hi)
    elif order == "B":
        rng = range(hi - 1, lo - 1, -1)
    else:
        n = hi - lo
        step = next(s for s in (7919, 7927, 7933, 7937) if n % s)
        rng = [lo + i * step % n for i in range(n)]
    if order != "A":
        fns = [(label, tab, fn, expr, _ref[tab]) for label, tab, fn, expr in pid_fns]
        for c in rng:
            for label, tab, fn, expr, ref in fns:
                try:
                    got = fn(c)
                except Exception as e:
                    got = f"{type(e).__name__}: {e}"
                if got != ref[c]:
                    bad(label, tab, expr, c, got, ref[c])
    sub.count(transitions=(hi - lo) * len(pid_fns), traces=len(pid_fns))
    if order == "A":
        sub.count(states=hi - lo)


def check(ctx, specs):
    """specs: (label, table, module, attribute path, argument template or None)
    e.g. ("getScript", "sc", "CharProps", "getScript"); or (label, table, None, source of
    a function of the code point, with load() in scope)."""
    _fns.clear()
    for spec in specs:
        label, tab, module, path = spec[:4]
        extra = spec[4] if len(spec) > 4 else ""
        if module is None:
            _fns.append((label, tab, eval(path, {"load": common.load}), f"({path})({{c}})"))
            if tab not in _ref:
                _ref[tab] = expand(tab)
            continue
        obj = common.load(module)
        for part in path.split("."):
            obj = common.need(obj, part)
        fn = obj
        if extra:
            ns = {"m": common.load(module)}
            fn = _bind(obj, extra, ns)
        if tab.endswith("_raw"):       # "no raw mapping": None or ""
            fn = (lambda c, f=fn: f(c) or None)
        expr = f"load({module!r}).{path}({{c}}{extra.replace('m.', f'load({module!r}).')})"
        _fns.append((label, tab, fn, expr))
        if tab not in _ref:
            _ref[tab] = expand(tab)
    orders = ["A", "B"] + (["C"] if ctx.thorough else [])
    step = N // common.NCPU // 2
    jobs = [(o, lo, min(N, lo + step)) for o in orders for lo in range(0, N, step)]
    common.parallel(ctx, _sweep, jobs)
    ctx.extra(functions=len(_fns), exhaustive=True)
    ctx.cov["rule"] = ("state = code point (all of 0..10FFFF); transition = one call of one function; "
                       "trace = one sweep of one function over a chunk of the code space, every result compared")
    for label, tab, fn, expr in _fns[:8]:
        for c in (0x41,):
            ctx.sample(f"{label}(U+{c:04X}) -> {_safe(fn, c)}")


def _safe(fn, c):
    try:
        return repr(fn(c))
    except Exception as e:
        return type(e).__name__


def _bind(obj, extra, ns):
    return eval("lambda c: f(c" + extra + ")", {"f": obj, **ns})
