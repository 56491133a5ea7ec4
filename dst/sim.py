"""The simulator: seams, fault plan, virtual clock, cooperative thread scheduler.

One `Sim` is current at a time (module global CUR).  Every seam asks it what to do.
A fault is a dict {"op": i, "seam": s, "n": k, "exc": name}: at the k-th crossing
(0-based) of seam s during operation i, raise `exc`.
"""
import collections
import sys
import threading
import types

import numpy as np

CUR = None          # the Sim in force, or None (all seams transparent)


class SimModelError(Exception):
    """An application-level failure of the user's model."""


class SimCapacityError(Exception):
    """The model refuses batches above its capacity."""


EXC = {
    "SimModelError": SimModelError,
    "RuntimeError": RuntimeError,
    "ValueError": ValueError,
    "AssertionError": AssertionError,
    "FloatingPointError": FloatingPointError,
    "ZeroDivisionError": ZeroDivisionError,
    "TimeoutError": TimeoutError,
    "ConnectionResetError": ConnectionResetError,
    "IndexError": IndexError,
    "KeyError": KeyError,
    "TypeError": TypeError,
    "AttributeError": AttributeError,
    "NotImplementedError": NotImplementedError,
    "OSError": OSError,
    "BrokenPipeError": BrokenPipeError,
    "MemoryError": MemoryError,
    "KeyboardInterrupt": KeyboardInterrupt,
    "SystemExit": SystemExit,
}
MODEL_EXC = ["SimModelError", "RuntimeError", "ValueError", "AssertionError", "FloatingPointError", "TimeoutError",
             "ConnectionResetError", "IndexError", "KeyError", "TypeError", "AttributeError", "NotImplementedError", "MemoryError", "KeyboardInterrupt", "SystemExit"]
ALLOC_EXC = ["MemoryError", "KeyboardInterrupt"]
STREAM_EXC = ["BrokenPipeError", "OSError", "KeyboardInterrupt"]
GUI_EXC = ["RuntimeError", "MemoryError", "KeyboardInterrupt"]


class Sim:
    def __init__(self, faults=(), sched=None, latency=0.0):
        self.clock = 0.0                      # virtual seconds
        self.latency = latency                # charged per model call
        self.plan = collections.defaultdict(dict)
        for f in faults:
            self.plan[(f["op"], f["seam"])][int(f["n"])] = f
        self.op = -1
        self.counts = collections.Counter()   # (op, seam) -> crossings
        self.fired = []                       # faults that really fired
        self.fired_exc = []                   # the exception objects, same order
        self.events = []                      # event log (small tuples)
        self.capacity = None
        self.queries = []                     # per-op model queries, when recording
        self.record = False
        self.violations = []                  # invariant breaches seen by seams
        self.sched = sched
        self.out = []                         # captured stdout of the current op
        self.outs = collections.defaultdict(list)   # the same per op, while threads run

    def begin(self, op):
        self.op = op

    def emit(self, s):
        if self.sched is None:
            self.out.append(s)
        else:
            self.outs[self.sched.current_op()].append(s)

    def cross(self, seam, note=None):
        """One crossing of a seam: count it, let the scheduler switch, maybe fail."""
        if self.sched is not None:
            self.sched.yield_point(seam)
        op = self.op if self.sched is None else self.sched.current_op()
        n = self.counts[(op, seam)]
        self.counts[(op, seam)] = n + 1
        if seam != "alloc":
            self.events.append((op, seam, n, note))
        f = self.plan.get((op, seam))
        if f and n in f:
            e = EXC[f[n]["exc"]]("injected %s fault %d" % (seam, n))
            e.dst_injected = True
            self.fired.append(f[n])
            self.fired_exc.append(e)
            self.events.append((op, seam, n, "FAULT " + f[n]["exc"]))
            raise e


def caused_by(exc, injected):
    """Is `injected` the exception itself or in its cause/context chain?"""
    seen = set()
    todo = [exc]
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        if e is injected:
            return True
        todo += [e.__cause__, e.__context__]
    return False


# ---------------------------------------------------------------- numpy seam
_ALLOC = {"linspace", "mean", "std", "var", "repeat", "reshape", "expand_dims", "digitize", "bincount", "divide",
          "concatenate", "interp", "array", "ones", "zeros", "sum", "sort", "argsort", "unique", "squeeze", "stack",
          "trapz", "square", "sqrt", "abs", "logical_and", "zeros_like", "isnan", "all", "min", "max", "argmax", "argmin",
          "where", "unravel_index", "arange", "allclose", "full", "full_like", "empty", "asarray", "copy", "vstack", "hstack",
          "column_stack", "tile", "broadcast_to", "cumsum", "average", "nanmean", "nanvar", "diff", "searchsorted", "any",
          "ones_like", "median", "clip", "take", "ascontiguousarray", "nan_to_num", "isfinite", "trapezoid", "alltrue"}


class _RandomProxy:
    def __getattr__(self, name):
        real = getattr(np.random, name)
        if isinstance(real, type) or not callable(real) or CUR is None:
            return real
        sim = CUR

        def call(*a, **k):
            sim.cross("rng", name)
            return real(*a, **k)
        return call


class NumpyProxy(types.ModuleType):
    """Stands in for `np` inside effector's modules; transparent when no Sim is current."""

    def __init__(self):
        super().__init__("numpy")
        self.__dict__["random"] = _RandomProxy()

    def __getattr__(self, name):
        real = getattr(np, name)
        sim = CUR
        if sim is None or name not in _ALLOC:
            return real

        def call(*a, **k):
            sim.cross("alloc", name)
            return real(*a, **k)
        return call


NP = NumpyProxy()


class SimStream:
    """stdout/stderr of the simulated process."""

    def __init__(self, seam):
        self.seam = seam
        self.encoding = "utf-8"

    def write(self, s):
        sim = CUR
        if sim is not None:
            if self.seam == "stdout":
                sim.cross("stdout")
                sim.emit(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise OSError("simulated stream has no descriptor")


def install_seams():
    import matplotlib.pyplot as plt
    for name, mod in list(sys.modules.items()):
        if (name == "effector" or name.startswith("effector.")) and mod is not None:
            for k, v in list(vars(mod).items()):
                if v is np:
                    setattr(mod, k, NP)

    def wrap(fn, seam):
        def call(*a, **k):
            if CUR is not None:
                CUR.cross(seam)
            return fn(*a, **k)
        return call
    plt.subplots = wrap(plt.subplots, "gui")
    plt.figure = wrap(plt.figure, "gui")
    plt.show = wrap(lambda *a, **k: None, "gui")

    import time
    import tqdm.std

    class _T:
        @staticmethod
        def time():
            return CUR.clock if CUR is not None else 0.0
        sleep = staticmethod(lambda s: None)
    tqdm.std.time = _T.time if callable(getattr(tqdm.std, "time", None)) else _T
    _ = time


# ---------------------------------------------------------------- model seam
class SimModel:
    """The user's black box: a sum of simple terms, evaluated row by row with exact IEEE operations.

    kind "f" returns (n,), kind "jac" returns (n, D).
    """

    def __init__(self, terms, dim, kind="f", out=None):
        self.terms, self.dim, self.kind = terms, dim, kind
        self.out = out            # how the values are handed out: "i8" whole numbers, "ro" an array nobody may write to
        self.returned = []        # (array, copy) pairs to detect writes into what the model returned
        self.keep = False

    def __call__(self, x):
        sim = CUR
        if sim is not None:
            if not (isinstance(x, np.ndarray) and x.ndim == 2 and x.shape[1] == self.dim):
                sim.violations.append("model called with %r instead of an (n, %d) array" % (getattr(x, "shape", type(x)), self.dim))
            if sim.record:
                sim.queries.append((self.kind, np.array(x, dtype=float)))
            sim.clock += sim.latency * max(1, len(x))
            sim.cross("model" if self.kind == "f" else "jac", len(x))
            if sim.capacity is not None and len(x) > sim.capacity:
                e = SimCapacityError("batch of %d rows exceeds capacity %d" % (len(x), sim.capacity))
                e.dst_injected = True
                sim.fired.append({"seam": "capacity", "exc": "SimCapacityError", "n": 0, "op": sim.op})
                sim.fired_exc.append(e)
                raise e
        y = self.pure(x)
        if self.out == "i8" and self.kind == "f":
            y = y.astype(np.int64)
        elif self.out == "ro":
            y.setflags(write=False)
        if self.keep:
            self.returned.append((y, y.copy()))
        return y

    def pure(self, x):
        return f_terms(self.terms, x) if self.kind == "f" else jac_terms(self.terms, x)


def f_terms(terms, x):
    x = np.asarray(x, dtype=float)
    y = np.zeros(x.shape[0])
    for t in terms:
        k = t[0]
        if k == "const":
            y = y + t[1]
        elif k == "lin":
            y = y + t[2] * x[:, t[1]]
        elif k == "quad":
            y = y + t[2] * (x[:, t[1]] * x[:, t[1]])
        elif k == "cub":
            y = y + t[2] * (x[:, t[1]] * x[:, t[1]] * x[:, t[1]])
        elif k == "rat":
            v = x[:, t[1]]
            y = y + t[2] * (v / (1.0 + v * v))
        elif k == "prod":
            y = y + t[3] * (x[:, t[1]] * x[:, t[2]])
        elif k == "gate":      # ["gate", i, thr, j, w]
            y = y + np.where(x[:, t[1]] > t[2], t[4] * x[:, t[3]], 0.0)
        elif k == "gatecat":   # ["gatecat", i, level, j, w]
            y = y + np.where(np.abs(x[:, t[1]] - t[2]) < 0.2137, t[4] * x[:, t[3]], 0.0)
        elif k == "floor":     # a model that answers in whole numbers (labels, counts); the last term
            y = np.floor(y + t[1])
        else:
            raise AssertionError("unknown term " + k)
    return y


def jac_terms(terms, x):
    x = np.asarray(x, dtype=float)
    j = np.zeros(x.shape)
    for t in terms:
        k = t[0]
        if k == "lin":
            j[:, t[1]] += t[2]
        elif k == "quad":
            j[:, t[1]] += 2 * t[2] * x[:, t[1]]
        elif k == "cub":
            j[:, t[1]] += 3 * t[2] * x[:, t[1]] * x[:, t[1]]
        elif k == "rat":
            v2 = x[:, t[1]] * x[:, t[1]]
            j[:, t[1]] += t[2] * (1 - v2) / ((1 + v2) * (1 + v2))
        elif k == "prod":
            j[:, t[1]] += t[3] * x[:, t[2]]
            j[:, t[2]] += t[3] * x[:, t[1]]
        elif k == "gate":
            j[:, t[3]] += np.where(x[:, t[1]] > t[2], t[4], 0.0)
        elif k == "gatecat":
            j[:, t[3]] += np.where(np.abs(x[:, t[1]] - t[2]) < 0.2137, t[4], 0.0)
    return j


# ---------------------------------------------------------------- threads
_STORES = {}


def store_lines(code):
    """Source lines that store into an object, a container or a global: where shared state may change."""
    if code not in _STORES:
        import dis
        line, out = None, set()
        for ins in dis.get_instructions(code):
            line = ins.starts_line if ins.starts_line is not None else line
            if ins.opname in ("STORE_ATTR", "STORE_SUBSCR", "STORE_GLOBAL", "STORE_SLICE"):
                out.add(line)
        _STORES[code] = frozenset(out)
    return _STORES[code]


class Stop(BaseException):
    pass


class Scheduler:
    """Real threads, one running at a time; switches only at yield points, as the plan says.

    plan: {(operation, its k-th step): thread to switch to}; with no entry the thread keeps running.
    A thread that blocks outside the simulator's control (on a real lock held by a parked thread)
    is recognised by the state the kernel reports for it, and the token moves on.
    """

    def __init__(self, nthreads, plan, lines=False, log=False, first=0, choose=None):
        self.n = nthreads
        self.plan = plan
        self.first = first
        self.choose = choose        # decides online instead of the plan (self.made is then the plan)
        self.made = []
        self.step = 0
        self.of_op = {}
        self.cv = threading.Condition()
        self.turn = -1
        self.alive = [True] * nthreads
        self.ids = {}
        self.tid = [None] * nthreads
        self.ops = [None] * nthreads
        self.trace = []
        self.log = [] if log else None
        self.lines = lines
        self.stalls = 0
        self.abort = False
        self.parked = [False] * nthreads

    def me(self):
        return self.ids.get(threading.get_ident())

    def current_op(self):
        t = self.me()
        return self.ops[t] if t is not None else -1

    def yield_point(self, what):
        t = self.me()
        if t is None:
            return
        if self.turn != t:            # we were declared stalled and have woken up: wait for the token
            with self.cv:
                self._wait(t)
        tgt = self._tick(t, what)
        if tgt is not None:
            self._switch(t, tgt, what)

    def _tick(self, t, what):
        op = self.ops[t]
        k = self.of_op.get(op, 0)
        self.of_op[op] = k + 1
        self.step += 1
        if self.log is not None:
            self.log.append((op, k, what))
        if self.choose is None:
            return self.plan.get((op, k))
        others = [i for i in range(self.n) if self.alive[i] and i != t]
        tgt = self.choose(t, op, k, what, others) if others else None
        if tgt is not None:
            self.made.append([op, k, tgt])
        return tgt

    def _switch(self, t, tgt, what):
        with self.cv:
            tgt = tgt % self.n
            if self.alive[tgt] and tgt != t:
                self.trace.append((self.step, t, tgt, what))
                self.turn = tgt
                self.cv.notify_all()
                self._wait(t)

    def _sleeping(self, t):
        """Is thread t asleep in the kernel (waiting for a lock), and not merely out of CPU?"""
        try:
            with open("/proc/self/task/%d/stat" % self.tid[t]) as f:
                return f.read().rsplit(")", 1)[1].split()[0] == "S"
        except OSError:
            return False

    def _wait(self, t):
        self.parked[t] = True
        seen = 0
        while self.turn != t:
            if self.abort:
                raise Stop()
            before, holder = self.step, self.turn
            if self.cv.wait(0.05) or holder != self.turn or holder < 0 or self.step != before or self.parked[holder] or not self._sleeping(holder):
                seen = 0
                continue
            seen += 1
            if seen >= 5 and self.turn != t:
                # the token holder sleeps on something a parked thread holds
                self.stalls += 1
                if self.stalls > 200:
                    self.abort = True
                    raise Stop()
                self.trace.append((self.step, self.turn, t, "stall"))
                self.turn = t
                self.cv.notify_all()
        self.parked[t] = False

    def _tracer(self, frame, event, arg):
        from .boot import REPO
        if not frame.f_code.co_filename.startswith(REPO):
            return None

        stores = store_lines(frame.f_code)
        where = "%s:%%d" % frame.f_code.co_filename.rsplit("/", 1)[-1]
        last = [None]

        def local(fr, ev, a):
            if ev == "line":
                what = ("stored:" if last[0] in stores else "line:") + where % fr.f_lineno
                last[0] = fr.f_lineno
                self.yield_point(what)
            return local
        return local

    def run(self, bodies):
        """bodies: list of callables(thread index). Returns when all have finished."""
        errs = [None] * self.n

        def main(i):
            self.ids[threading.get_ident()] = i
            self.tid[i] = threading.get_native_id()
            try:
                with self.cv:
                    self._wait(i)
                if self.lines:
                    sys.settrace(self._tracer)
                bodies[i](i)
            except Stop:
                errs[i] = "deadlock"
            finally:
                sys.settrace(None)
                with self.cv:
                    self.alive[i] = False
                    if self.turn == i:
                        for j in range(1, self.n + 1):
                            k = (i + j) % self.n
                            if self.alive[k]:
                                self.turn = k
                                break
                    self.cv.notify_all()
        ths = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(self.n)]
        for t in ths:
            t.start()
        while None in self.tid:
            threading.Event().wait(0.0005)
        with self.cv:
            self.turn = self.first % self.n
            self.cv.notify_all()
        for t in ths:
            t.join(60)
            if t.is_alive():
                self.abort = True
                return ["deadlock"] * self.n
        return errs
