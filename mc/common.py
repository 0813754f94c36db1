"""Shared harness: staging of the code under test, hang guards, reporting.

Exit protocol (see run.py): 0 = held on everything explored, 1 = VIOLATION
printed, 2 = the harness itself failed.
"""
import atexit
import concurrent.futures
import contextlib
import importlib
import json
import lzma
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
NCPU = max(1, min(8, os.cpu_count() or 1))

MEMORY = 3 << 30        # per process: code under test that eats memory gets a MemoryError, not the sandbox

sys.dont_write_bytecode = True


def limit_memory():
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY if hard == resource.RLIM_INFINITY else min(MEMORY, hard), hard))


class Hang(BaseException):
    """Raised into the code under test when it burned its CPU budget."""


class Missing(Exception):
    """The code under test no longer offers a documented entry point."""


@contextlib.contextmanager
def cpu_limit(seconds, what="call"):
    """Abort non-terminating code under test after `seconds` of user CPU time."""
    def on_alarm(signum, frame):
        raise Hang(f"{what}: no result after {seconds} s of CPU time")
    old = signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds, 1.0)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def read_data(name):
    with lzma.open(os.path.join(VERIF, "mc", "golden", name)) as f:
        return f.read()


def small_icudata():
    return read_data("icudata.dat.xz")


_STAGES = []        # (process, directory)


def cleanup():
    """Remove the scratch copies this process made."""
    for pid, d in _STAGES[:]:
        if pid == os.getpid():
            shutil.rmtree(d, ignore_errors=True)
            _STAGES.remove((pid, d))
            if d in sys.path:
                sys.path.remove(d)


atexit.register(cleanup)


def stage(dat=None):
    """Copy the package under test to a scratch directory and put it first on
    sys.path.  `dat` is the content of Data/icudata.dat (None: as in /repo)."""
    d = tempfile.mkdtemp(prefix="mc-stage-")
    pid = os.getpid()

    _STAGES.append((pid, d))
    shutil.copytree(os.path.join(REPO, "UnicodeData"), os.path.join(d, "UnicodeData"),
                    ignore=shutil.ignore_patterns("__pycache__"))
    if dat is not None:
        os.makedirs(os.path.join(d, "UnicodeData", "Data"), exist_ok=True)
        with open(os.path.join(d, "UnicodeData", "Data", "icudata.dat"), "wb") as f:
            f.write(dat)
    sys.path.insert(0, d)
    warnings.simplefilter("ignore")          # pkg_resources announces its own removal
    return d


def scratch():
    """The staged copy, for replays that exchange its data file."""
    return sys.path[0]


def load(name):
    """Import UnicodeData.<name> from the staged copy."""
    m = importlib.import_module("UnicodeData." + name if name else "UnicodeData")
    f = os.path.realpath(m.__file__ or "")
    if "mc-stage-" not in f:
        raise RuntimeError(f"module {name} came from {f}, not from the staged copy")
    return m


def unload():
    for k in list(sys.modules):
        if k == "UnicodeData" or k.startswith("UnicodeData."):
            del sys.modules[k]


# modules that hold nothing read from the data file: a new data file leaves them valid
_CONSTANT = frozenset("""BidiProperties BidiProps BidiPropsData BinaryProperties Blocks Boundaries CPTrie CaseProperties
CaseProps CasePropsData CharDirection CharProps CharPropsData CharacterData Characters DecompProperties DecompositionType
EastAsianWidth GeneralCategories IndicProperties JoiningTypesAndGroups LayoutTypes Norm2NFCData Scripts UCDProperties
UCDTypeDictionaries UnicodeSet UnicodeVersion Utilities Utrie2 ucase_h uchar_h uprops_h uscript_h""".split())


def forget():
    """Drop every module that may hold something read from the data file, whatever
    modules the loader and its users consist of.  Returns the names dropped."""
    pkg = sys.modules.get("UnicodeData")
    out = []
    for k in list(sys.modules):
        if k.startswith("UnicodeData."):
            m = k[len("UnicodeData."):]
            if m not in _CONSTANT:
                out.append(m)
                del sys.modules[k]
                if pkg is not None and hasattr(pkg, m):
                    delattr(pkg, m)
    return sorted(out)


def need(obj, name):
    try:
        return getattr(obj, name)
    except AttributeError:
        raise Missing(f"{getattr(obj, '__name__', obj)!s} has no {name}")


# ------------------------------------------------------------------ context

REPLAY_HEAD = '''#!/opt/venv/bin/python
"""Replay of a violation of {pid}: {title}
Exits 1 when /repo's working tree still shows it, 0 when it does not."""
import sys
sys.path.insert(0, {verif!r})
from mc import common
common.stage({dat})
from mc.common import load
'''


class Ctx:
    MAX_REPORT = 12

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.level = "model_checking"
        self.violations = []     # (key, message, replay body)
        self.nviol = 0
        self.findings_hit = set()
        self.known = dict(known_findings(pid))
        self.dat = None
        self.t0 = time.time()

    # -- counters
    def count(self, states=0, transitions=0, traces=0):
        self.cov["states"] += states
        self.cov["transitions"] += transitions
        self.cov["traces_validated_against_impl"] += traces

    def extra(self, **kw):
        for k, v in kw.items():
            if isinstance(v, int) and not isinstance(v, bool) and isinstance(self.cov.get(k), int):
                self.cov[k] += v
            else:
                self.cov[k] = v

    def sample(self, s, limit=8):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    # -- violations
    def violation(self, key, msg, replay=""):
        """key identifies the failing input/history; replay is Python source that
        sets `bad` to a true value when the violation shows."""
        if key in self.known:
            self.findings_hit.add(key)
            return
        self.nviol += 1
        if len(self.violations) < 200:
            self.violations.append((key, msg, replay))

    def stage(self, dat=None):
        """dat: None (as in the repo) or 'small' (real ICU items) ."""
        self.dat = dat
        self.root = stage(small_icudata() if dat == "small" else dat)
        return self.root


def merge(ctx, result):
    """Merge what a worker returned (see Sub)."""
    for k, v in result["cov"].items():
        if k == "samples":
            for s in v:
                ctx.sample(s)
        elif isinstance(v, set):
            ctx.cov.setdefault(k, set()).update(v)
        elif isinstance(v, bool):
            ctx.cov[k] = v
        elif isinstance(v, int):
            ctx.cov[k] = ctx.cov.get(k, 0) + v
        else:
            ctx.cov[k] = v
    ctx.nviol += result["nviol"]
    ctx.findings_hit |= result["findings"]
    ctx.violations.extend(result["violations"][: max(0, 200 - len(ctx.violations))])


_JOBS = []      # inherited by forked workers


def _worker(index):
    fn, a, pid, tier, seed = _JOBS[index]
    sub = Ctx(pid, tier, seed)
    made = len(_STAGES)
    try:
        fn(sub, *a)
        return {"cov": sub.cov, "nviol": sub.nviol, "violations": sub.violations, "findings": sub.findings_hit, "error": None}
    except BaseException as e:  # noqa
        return {"cov": sub.cov, "nviol": sub.nviol, "violations": sub.violations,
                "findings": sub.findings_hit, "error": (type(e).__name__, str(e), traceback.format_exc(), from_sut(e))}
    finally:
        if len(_STAGES) > made:
            unload()                # a later job of this process imports from its own copy
        for _, d in _STAGES[made:]:
            shutil.rmtree(d, ignore_errors=True)
            if d in sys.path:
                sys.path.remove(d)
        del _STAGES[made:]


def from_sut(e):
    """Did this exception come out of the code under test?"""
    if isinstance(e, (Hang, Missing, ImportError, SyntaxError, MemoryError, RecursionError)):
        return True
    tb = e.__traceback__
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if "mc-stage-" in f or f.startswith(REPO + "/"):
            return True
        tb = tb.tb_next
    return False


class SutError(Exception):
    pass


def parallel(ctx, fn, arglists, take=None):
    """Run fn(subctx, *args) for every args in arglists in forked workers.  `take` is
    given each result before it is merged."""
    jobs = _JOBS[:] = [(fn, a, ctx.pid, ctx.tier, ctx.seed) for a in arglists]
    if len(jobs) == 1:
        results = [_worker(0)]
    else:
        # an executor, not a Pool: it notices when a worker is killed
        with concurrent.futures.ProcessPoolExecutor(min(NCPU, len(jobs)), multiprocessing.get_context("fork")) as pool:
            results = list(pool.map(_worker, range(len(jobs)), chunksize=1))
    for r in results:
        if take:
            take(r)
        merge(ctx, r)
    shown = set()
    for r in results:
        if r["error"]:
            name, msg, tb, sut = r["error"]
            if sut and name in shown:
                ctx.nviol += 1
            elif sut:
                shown.add(name)
                ctx.violation(f"exception:{name}", f"unexpected {name}: {msg}\n{tb}")
            elif ctx.violations:        # what was found stands, whatever the harness tripped over
                sys.stderr.write("worker failed:\n" + tb)
            else:
                raise RuntimeError("worker failed:\n" + tb)


# ------------------------------------------------------------------ findings

def known_findings(pid):
    """(key, text) of the open findings for one property.  Format of a line:
    finding: property=<id> key=<key> <what fails>"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: "):
                w = line.split(None, 3)
                if w[1] == "property=" + pid:
                    out.append((w[2][len("key="):], w[3].strip()))
    return out


def finish(ctx):
    for key in sorted(ctx.findings_hit):
        print(f"KNOWN-FINDING: property={ctx.pid} {ctx.known[key]}")
    real = ctx.violations
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(ctx.pid + "-"):
            os.unlink(os.path.join(rdir, f))
    for n, (key, msg, replay) in enumerate(real[: ctx.MAX_REPORT]):
        path = os.path.join(rdir, f"{ctx.pid}-{n}.py")
        with open(path, "w") as f:
            dat = "None" if ctx.dat is None else ("common.small_icudata()" if ctx.dat == "small" else repr(ctx.dat))
            f.write(REPLAY_HEAD.format(pid=ctx.pid, title=msg.splitlines()[0][:200].replace('"""', "'''").replace("\\", "/"),
                                       verif=VERIF, dat=dat))
            if replay:
                f.write(replay.rstrip() + "\nprint('reproduced' if bad else 'not reproduced')\nsys.exit(1 if bad else 0)\n")
            else:
                f.write(f"# re-runs the whole check: this violation has no shorter replay\n"
                        f"import subprocess\nsys.exit(subprocess.call([sys.executable, {VERIF!r} + '/run.py', {ctx.pid!r}]))\n")
        print(f"VIOLATION property={ctx.pid} replay={path}")
        print("   " + msg.replace("\n", "\n   "))
    if len(real) > ctx.MAX_REPORT or ctx.nviol > len(real):
        print(f"   ... {ctx.nviol} violations in all")
    ev = {
        "property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": ctx.level,
        "coverage": ctx.cov, "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - ctx.t0, 2), "violations": len(real) if not real else max(ctx.nviol, len(real)),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    c = ctx.cov
    print(f"{ctx.pid}: states={c['states']} transitions={c['transitions']} traces={c['traces_validated_against_impl']} "
          f"violations={ev['violations']} wall={ev['wall_s']}s")
    return 1 if real else 0
