"""A controlled scheduler: real threads of the real code, run one at a time, stopped
before every line (or bytecode) of the code under test, in any order the caller
chooses up to a preemption bound."""
import hashlib
import io
import sys
import threading
import time
import types


class Sched:
    """Runs bodies in threads, one at a time: before every traced event the running
    thread asks the schedule who goes on, and hands over if that is not itself."""
    current = None

    def __init__(self, files, opcodes):
        """files: the source file, or the prefix of the source files (ending in '/'),
        whose lines (opcodes: bytecodes) are scheduling points."""
        self.prefixed = files.endswith("/")
        self.file, self.opcodes = files, opcodes
        self.lock = threading.Lock()
        self.tls = threading.local()

    # -- called with the lock held, by the thread that is to stop
    def choose(self):
        ready = sorted(self.ready)
        k = len(self.made)
        cur = self.cur
        if k < len(self.prefix) and self.prefix[k] in self.ready:
            c = self.prefix[k]
        else:
            c = cur if cur in self.ready else ready[0]
        if cur in self.ready:
            before = self.preempt
            self.alts.append([i for i in ready if i != c and before + (i != cur) <= self.bound])
            self.preempt += c != cur
        else:
            self.alts.append([i for i in ready if i != c])
        self.states.append(tuple(self.at[i] for i in range(self.n)))
        if self.fingerprint is not None:
            self.marks.append(self.fingerprint(self) if k >= len(self.prefix) and not self.quiet else None)
        self.made.append(c)
        self.cur = c
        return c

    def step(self, me, pos, frame=None):
        """me stops at pos; returns when it is its turn again."""
        with self.lock:
            self.at[me] = pos
            self.frames[me] = frame
            self.ready.add(me)
            if self.cur not in (me, None):
                # me had been given up as blocked: wait to be chosen
                c = None
            else:
                c = self.choose()
        if c != me:
            if c is not None:
                self.sem[c].release()
            self.sem[me].acquire()

    def leave(self, me, pos):
        """me ends or blocks."""
        with self.lock:
            self.at[me] = pos
            if pos == ("end",):
                self.frames[me] = None
            self.ready.discard(me)
            if self.cur != me:
                return
            self.cur = None
            if self.ready:
                self.sem[self.choose()].release()

    def event(self, code, where):
        """Called by the interpreter before every line (bytecode), in every thread."""
        f = code.co_filename
        if f != self.file and not (self.prefixed and f.startswith(self.file)):
            return _mon.DISABLE
        i = getattr(self.tls, "i", None)
        if i is None or i in self.done:
            return None
        frame = sys._getframe(1)
        if self.fingerprint is not None:
            hist = self.hist[i]
            while hist and hist[-1][0] is not frame:
                g = frame.f_back
                while g is not None and g is not hist[-1][0]:
                    g = g.f_back
                if g is not None:
                    break
                hist.pop()
            if not hist or hist[-1][0] is not frame:
                hist.append([frame, 0])
                if code.co_flags & 0x20:      # a generator, perhaps gone on with
                    hist[-1] = self.generators.setdefault(frame, hist[-1])
            hist[-1][1] += 1
        self.step(i, (code.co_name, frame.f_lineno, where if self.opcodes else 0), frame)
        return None

    def body(self, i, fn):
        self.tls.i = i
        self.sem[i].acquire()
        try:
            r = fn()
        except BaseException as e:  # noqa
            r = e
        self.done[i] = r
        self.leave(i, ("end",))
        if len(self.done) == self.n:
            self.over.set()

    # called at every step after the prefix, with all threads stopped; its value is
    # kept in `marks`.  It may set `quiet` to be asked no more.
    fingerprint = None
    quiet = False

    def run(self, fns, prefix, bound):
        """Follow `prefix` (a list of thread choices), then keep the running thread.
        Returns (results, choices made, alternatives at each step, positions)."""
        n = self.n = len(fns)
        self.prefix, self.bound, self.preempt = prefix, bound, 0
        self.made, self.alts, self.states, self.done = [], [], [], {}
        self.at = {i: ("start",) for i in range(n)}
        self.frames, self.marks, self.generators, self.hist = {}, [], {}, [[] for _ in range(n)]
        self.ready = set(range(n))
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.over = threading.Event()
        self.cur = None
        Sched.current = self
        _watch(self.event, self.opcodes)
        try:
            return self._run(n, fns)
        finally:
            _watch(None, self.opcodes)
            Sched.current = None

    def _run(self, n, fns):
        ts = [threading.Thread(target=self.body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        self.threads = ts
        for t in ts:
            t.start()
        with self.lock:
            c = self.choose()
        self.sem[c].release()
        idle, last, stuck = 0, None, 0
        while not self.over.wait(0.02):
            # nobody moves: the running thread waits for something another one holds
            with self.lock:
                cur = self.cur
                frame = sys._current_frames().get(ts[cur].ident) if cur is not None else None
                now = (cur, len(self.made), frame and (frame.f_code, frame.f_lasti))
                idle = idle + 1 if now == last else 0
                last = now
                stuck = stuck + 1 if idle else 0
                go = None
                if idle >= 5 and cur is not None:
                    self.ready.discard(cur)
                    self.at[cur] = ("blocked",)
                    self.cur = None
                    idle = 0
                    if self.ready:
                        go = self.choose()
                elif cur is None and self.ready:
                    go = self.choose()
            if go is not None:
                self.sem[go].release()
            if stuck > 500:
                return None, self.made, self.alts, self.states
        for t in ts:
            t.join(20)
        return [self.done[i] for i in range(n)], self.made, self.alts, self.states


_mon = sys.monitoring
_TOOL = 4


def _watch(callback, opcodes):
    if _mon.get_tool(_TOOL) is None:
        _mon.use_tool_id(_TOOL, "mc")
    e = _mon.events.INSTRUCTION if opcodes else _mon.events.LINE
    _mon.register_callback(_TOOL, e, callback)
    _mon.set_events(_TOOL, e if callback else 0)


# ------------------------------------------------------------------ states

_ATOMS = (int, str, bytes, float, bool, complex, type(None), type(...), range, slice)
_ITERATORS = tuple(type(x) for x in (iter([]), iter(()), iter(range(0)), iter(range(1 << 70)), iter(""), iter(b""), iter({}), iter({}.items()),
                                     iter({}.values()), iter(set()), enumerate(()), zip(), reversed([]), map(str, ())))
_NAMED = tuple(type(x) for x in (threading, len, str.join, "".join, int.__add__, (lambda: 0), classmethod(len), staticmethod(len), property(), (lambda: 0).__code__)) + (type,)


class Print:
    """The state of a program as a hash: what every stopped thread has in its frames
    (locals and position) and what the modules hold.  Objects are
    numbered in the order met, so that two runs with the same shape agree."""

    def __init__(self, threads, root):
        """root: where the staged copy is, which differs between processes."""
        self.memo, self.threads, self.keep, self.root = {}, threads, [], root

    def of(self, o):
        t = type(o)
        if t in _ATOMS:
            if t is str and len(o) > 15:
                return hash(o.replace(self.root, ""))
            return hash(o) if t is bytes else o
        if o is None or t in _NAMED or isinstance(o, type):
            return getattr(o, "__qualname__", None) or getattr(o, "__name__", None) or t.__name__
        k = id(o)
        if k in self.memo:
            return ("seen", self.memo[k])
        self.memo[k] = len(self.memo)
        self.keep.append(o)
        if t in (list, tuple):
            return (t.__name__, *map(self.of, o))
        if t is dict:
            return ("dict", *[(self.of(a), self.of(b)) for a, b in list(o.items())])
        if t in (set, frozenset):
            return ("set", *sorted(repr(self.of(x)) for x in o))
        if t in (bytearray, memoryview):
            return hash(bytes(o))
        if t is types.FrameType:
            return self.frame(o)
        if t is types.MethodType:
            return (o.__func__.__qualname__, self.of(o.__self__))
        if t is types.GeneratorType:
            return ("gen", o.gi_frame and self.frame(o.gi_frame))
        if t is types.CellType:
            try:
                return ("cell", self.of(o.cell_contents))
            except ValueError:
                return "cell"
        if t is CoopLock:
            return ("lock", self.threads.get(o.owner, o.owner is not None), o.n)
        if t in _ITERATORS:
            return (t.__name__, self.of(o.__reduce__()[1:] if t is not _ITERATORS[-1] else ()))
        if isinstance(o, BaseException):
            return (t.__name__, str(o))
        if isinstance(o, io.IOBase):
            return (t.__name__, o.closed or o.tell())
        d = getattr(o, "__dict__", None)
        s = [getattr(o, a, None) for c in t.__mro__ for a in _slots(c)]
        return (t.__name__, self.of(d) if d is not None else 0, *map(self.of, s))

    def frame(self, f, n=0):
        # the evaluation stack (loop iterators) cannot be seen: the number of steps made
        # in this frame stands for it
        return (f.f_code.co_name, f.f_lasti, n, *[(k, self.of(v)) for k, v in f.f_locals.items()])

    def stack(self, f, hist):
        out = []
        while f is not None and f.f_code.co_filename != __file__:
            out.append(self.frame(f, next((n for g, n in hist if g is f), 0)))
            f = f.f_back
        return tuple(out)

    def module(self, m):
        out = []
        for k, v in list(vars(m).items()):
            if k.startswith("__") or isinstance(v, (types.ModuleType, types.FunctionType, types.BuiltinFunctionType)):
                continue
            if isinstance(v, type):
                if v.__module__ == m.__name__:
                    out.append((k, *[(a, self.of(b)) for a, b in list(vars(v).items())
                                     if not a.startswith("__") and not isinstance(b, (types.FunctionType, classmethod, staticmethod, property, types.MemberDescriptorType))]))
            else:
                out.append((k, self.of(v)))
        return tuple(out)


def _slots(c):
    s = c.__dict__.get("__slots__", ())
    return (s,) if isinstance(s, str) else s


def fingerprint(sched, modules, root):
    """64 bits of the state of all threads of `sched` and of the modules."""
    p = Print({t.ident: i for i, t in enumerate(sched.threads)}, root)
    state = (tuple(p.module(m) for m in modules),
             tuple((sched.at[i], i in sched.ready, p.stack(sched.frames[i], sched.hist[i]) if sched.frames.get(i) is not None else None,
                    p.of(sched.done.get(i))) for i in range(sched.n)))
    return int.from_bytes(hashlib.blake2b(repr(state).encode(), digest_size=8).digest(), "little")


class CoopLock:
    """Takes the place of threading.Lock and RLock in the code under test: a thread
    that finds it taken lets the others run."""

    def __init__(self, reentrant=False):
        self.re, self.owner, self.n = reentrant, None, 0
        self.mutex = _Lock()

    def _try(self):
        me = threading.get_ident()
        with self.mutex:
            if self.owner is None or (self.re and self.owner == me):
                self.owner, self.n = me, self.n + 1
                return True
        return False

    def acquire(self, blocking=True, timeout=-1):
        s = Sched.current
        end = None if timeout is None or timeout < 0 else time.time() + timeout
        while not self._try():
            if not blocking or (end is not None and time.time() > end):
                return False
            i = getattr(s.tls, "i", None) if s else None
            if i is None:
                time.sleep(0.001)
                continue
            # become ready again, and run, only after someone released something
            CoopLock.waiting.setdefault(self, []).append((s, i))
            s.leave(i, ("waits",))
            s.sem[i].acquire()
        return True

    waiting = {}

    def release(self):
        with self.mutex:
            if self.n == 0:
                raise RuntimeError("release unlocked lock")
            self.n -= 1
            if self.n:
                return
            self.owner = None
        for s, i in CoopLock.waiting.pop(self, []):
            with s.lock:
                s.ready.add(i)

    def _at_fork_reinit(self):
        self.owner, self.n = None, 0
        self.mutex = _Lock()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


_Lock = threading.Lock
_RLock = threading.RLock


def compress(made):
    out = []
    for c in made:
        if out and out[-1][0] == c:
            out[-1][1] += 1
        else:
            out.append([c, 1])
    return " ".join(f"T{c}x{n}" for c, n in out)
