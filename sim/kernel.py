"""The simulation kernel.

Callers of torch_struct are real threads, but only one of them is ever running:
every other one is parked on a private lock.  Before each source line of
torch_struct the running thread enters `_on_line`, where the kernel may

  * count a step (the simulation's only clock),
  * run monitors (invariants that must hold at every instant),
  * run a scheduled action (e.g. corrupt a buffer),
  * raise an injected exception, or
  * park this thread and release another one.

Tensor operations pass through `SimMode`, a TorchDispatchMode, where they are
counted, can be made to fail, and where random operators can be answered by an
adversary.  All decisions come from the plan; the kernel itself draws nothing.
"""
import ast
import _thread
import functools
import gc
import os
import random
import sys
import threading
import types

WATCHDOG_S = 120.0
STEP_CAP = 400_000


class HarnessError(Exception):
    "The simulator itself failed; never a verdict about the code."


class Violation(Exception):
    def __init__(self, cls, detail):
        super().__init__("%s: %s" % (cls, detail))
        self.cls, self.detail = cls, detail


class StepCap(BaseException):
    pass


class Deadlock(BaseException):
    pass


# --------------------------------------------------------------------------
# locks created by torch_struct become cooperative.  Must be installed before
# torch_struct is imported.

_real_Lock, _real_RLock = threading.Lock, threading.RLock


class SimLock:
    def __init__(self, reentrant):
        self._re = reentrant
        self._owner, self._n = None, 0

    def _me(self):
        return _thread.get_ident()

    def free_for(self, ident):
        return self._owner is None or (self._re and self._owner == ident)

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while not self.free_for(me):
            if not blocking or timeout == 0:
                return False
            k = ACTIVE
            t = k.by_ident.get(me) if k is not None else None
            if t is None:
                raise HarnessError("library lock held outside the simulation")
            if timeout > 0 and not k.others_runnable(t):
                return False  # simulated time passes
            k.block(t, self)
        self._owner, self._n = me, self._n + 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._n -= 1
        if self._n <= 0:
            self._owner, self._n = None, 0

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == self._me()

    def _at_fork_reinit(self):
        self._owner, self._n = None, 0


def _from_library():
    f = sys._getframe(2)
    while f is not None and f.f_globals.get("__name__") == "threading":
        f = f.f_back
    return f is not None and str(f.f_globals.get("__name__", "")).startswith(
        "torch_struct"
    )


def install_lock_seam():
    def Lock():
        return SimLock(False) if _from_library() else _real_Lock()

    def RLock():
        return SimLock(True) if _from_library() else _real_RLock()

    threading.Lock, threading.RLock = Lock, RLock


# --------------------------------------------------------------------------
# line events

ACTIVE = None
_TOOL = 3
_mon = sys.monitoring
LIB_DIR = None


def _codes(code, out):
    if code in out:
        return
    out.add(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _codes(c, out)


def install_line_events(lib_dir):
    """Instrument every function of the library that exists now."""
    global LIB_DIR
    LIB_DIR = os.path.realpath(lib_dir) + os.sep
    if _mon.get_tool(_TOOL) is None:
        _mon.use_tool_id(_TOOL, "sim")
        _mon.register_callback(_TOOL, _mon.events.LINE, _on_line)
    found = set()
    for f in gc.get_objects():
        if isinstance(f, types.FunctionType):
            code = f.__code__
            if code.co_filename.startswith(LIB_DIR):
                _codes(code, found)
    for code in found:
        _mon.set_local_events(_TOOL, code, _mon.events.LINE)
        shielded(code.co_filename)
    return len(found)


def _on_line(code, line):
    k = ACTIVE
    if k is None:
        return
    t = k.by_ident.get(_thread.get_ident())
    if t is None or not t.in_op:
        return
    k.line(t, code, line)


# --------------------------------------------------------------------------


class Task:
    def __init__(self, idx, fn):
        self.idx, self.fn = idx, fn
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.ident = None
        self.steps = 0  # lines of library code executed so far
        self.dispatches = 0
        self.in_op = False
        self.done = False
        self.blocked = None
        self.switches = []  # [(step, target)], ascending
        self.si = 0
        self.fault = None  # armed fault for the current op
        self.actions = []  # [(line position in op, callable)]
        self.op_lines = 0
        self.op_disp = 0
        self.error = None


@functools.lru_cache(None)
def shielded(filename):
    """Lines where no asynchronous exception is delivered.

    The line event of a `with` header fires again on the way out, before __exit__
    is called; CPython never delivers a signal there.  The same goes for clean-up
    code: no program survives an interrupt inside its own clean-up."""
    try:
        with open(filename) as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError, ValueError):
        return frozenset()
    out = set()

    def span(a, b):
        out.update(range(a, b + 1))

    for n in ast.walk(tree):
        if isinstance(n, (ast.With, ast.AsyncWith)):
            span(n.lineno, max(i.context_expr.end_lineno for i in n.items))
        elif isinstance(n, ast.Try):
            if n.finalbody or n.handlers:
                out.add(n.lineno)
            for part in [h.body for h in n.handlers] + [n.finalbody]:
                if part:
                    span(part[0].lineno, part[-1].end_lineno)
        elif isinstance(n, ast.FunctionDef):
            names = {x.id if isinstance(x, ast.Name) else getattr(x, "attr", "") for x in n.decorator_list}
            if n.name in ("__enter__", "__exit__", "__del__") or "contextmanager" in names:
                span(n.lineno, n.end_lineno)
    return frozenset(out)


class Fault:
    def __init__(self, kind, pos):
        self.kind, self.pos = kind, pos
        self.fired = False


class Kernel:
    def __init__(self, monitor=None, step_cap=STEP_CAP):
        self.tasks = []
        self.by_ident = {}
        self.monitor = monitor
        self.total = 0
        self.hash = 0
        self.switch_hash = 0
        self.n_switches = 0
        self.fired = {}
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.step_cap = step_cap
        self.failure = None
        self.over = False
        self.where = ""

    # -- construction
    def add(self, fn, switches=()):
        t = Task(len(self.tasks), fn)
        t.switches = [tuple(s) for s in switches]
        self.tasks.append(t)
        return t

    # -- hooks
    def line(self, t, code, line):
        if self.over:
            return
        t.steps += 1
        t.op_lines += 1
        self.total += 1
        self.hash = (self.hash * 1000003 ^ (line * 64 + t.idx)) & 0xFFFFFFFFFFFFFFF
        if t.op_lines > self.step_cap:
            self.where = "%s:%d" % (code.co_qualname, line)
            raise StepCap()
        if self.monitor is not None:
            self.monitor(t, code, line)
        if t.actions and t.actions[0][0] <= t.op_lines:
            while t.actions and t.actions[0][0] <= t.op_lines:
                t.actions.pop(0)[1]()
        f = t.fault
        if f is not None and not f.fired and f.kind in LINE_FAULTS:
            if t.op_lines >= f.pos and line not in shielded(code.co_filename):
                f.fired = True
                self.where = "%s:%d" % (code.co_qualname, line)
                self.count("fault:" + f.kind)
                if in_backward():
                    self.count("fault:%s in backward" % f.kind)
                raise LINE_FAULTS[f.kind]("injected")
        if t.si < len(t.switches) and t.switches[t.si][0] <= t.steps:
            target = t.switches[t.si][1]
            t.si += 1
            self.preempt(t, target, code, line)

    def dispatch(self, t, func):
        t.dispatches += 1
        t.op_disp += 1
        f = t.fault
        if f is not None and not f.fired and f.kind == "oom":
            if t.op_disp >= f.pos:
                f.fired = True
                self.where = str(func)
                self.count("fault:oom")
                if in_backward():
                    self.count("fault:oom in backward")
                raise InjectedOOM("injected: CPU out of memory in %s" % func)

    def count(self, what, n=1):
        self.fired[what] = self.fired.get(what, 0) + n

    def note(self, x):
        "Feed an observation into the run's digest."
        self.hash = (self.hash * 1000003 ^ (hash_bytes(x))) & 0xFFFFFFFFFFFFFFF

    # -- scheduling
    def runnable(self, t):
        return not t.done and (t.blocked is None or t.blocked.free_for(t.ident))

    def others_runnable(self, me):
        return any(self.runnable(t) for t in self.tasks if t is not me)

    def pick(self, start):
        n = len(self.tasks)
        for i in range(n):
            t = self.tasks[(start + i) % n]
            if self.runnable(t):
                return t
        return None

    def preempt(self, t, target, code, line):
        if len(self.tasks) < 2:
            return
        nxt = self.pick(target)
        if nxt is None or nxt is t:
            return
        self.n_switches += 1
        key = "%d>%d %s:%d" % (t.idx, nxt.idx, code.co_qualname, line)
        self.switch_hash = (self.switch_hash * 1000003 ^ hash_bytes(key)) & (
            0xFFFFFFFFFFFFFFF
        )
        self.count("preemption")
        self.transfer(t, nxt)

    def block(self, t, lock):
        if self.over:
            raise Deadlock()
        t.blocked = lock
        nxt = self.pick((t.idx + 1) % len(self.tasks))
        if nxt is None:
            t.blocked = None
            raise Deadlock()
        self.count("lock wait")
        if nxt is not t:
            self.transfer(t, nxt)
        t.blocked = None

    def transfer(self, t, nxt):
        nxt.sem.release()
        self.park(t)

    def park(self, t):
        if not t.sem.acquire(timeout=WATCHDOG_S):
            self.failure = HarnessError("watchdog: task %d never resumed" % t.idx)
            raise self.failure
        if self.over:
            raise Deadlock()

    # -- running
    def _body(self, t):
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        try:
            self.park(t)
            t.fn(t)
        except BaseException as e:  # reported by the owner
            t.error = e
        finally:
            t.done = True
            t.in_op = False
            nxt = self.pick((t.idx + 1) % len(self.tasks))
            if nxt is not None and not self.over:
                nxt.sem.release()
            else:
                self.main.release()

    def run(self):
        global ACTIVE
        if ACTIVE is not None:
            raise HarnessError("nested simulation")
        ACTIVE = self
        try:
            if len(self.tasks) == 1:
                t = self.tasks[0]
                t.ident = _thread.get_ident()
                self.by_ident[t.ident] = t
                try:
                    t.fn(t)
                finally:
                    t.done = True
                    t.in_op = False
                return
            ths = []
            for t in self.tasks:
                th = threading.Thread(target=self._body, args=(t,), daemon=True)
                ths.append(th)
                th.start()
                # registration order must not depend on the OS
                while t.ident is None:
                    _thread_yield()
            self.tasks[0].sem.release()
            if not self.main.acquire(timeout=WATCHDOG_S * 2):
                raise HarnessError("watchdog: simulation stuck (%s)" % self.where)
            stuck = [(t, th) for t, th in zip(self.tasks, ths) if not t.done]
            if stuck:
                # everybody left waits for somebody else: send them home
                self.over = True
                for t, th in stuck:
                    t.sem.release()
                    th.join(WATCHDOG_S)
                raise Deadlock()
            for th in ths:
                th.join(WATCHDOG_S)
            for t in self.tasks:
                if t.error is not None:
                    raise t.error
        finally:
            ACTIVE = None


def _thread_yield():
    import time

    time.sleep(0)


# --------------------------------------------------------------------------
# what the caller has configured before the run


def configured(generate):
    "Some plans run under another default dtype."

    def wrapped(prop, seed):
        plan = generate(prop, seed)
        if random.Random("configuration/%s/%d" % (prop, seed)).random() < 0.1:
            plan["dd"] = "float64"
        return plan

    return wrapped


def configuration(plan, fn):
    import torch

    was = torch.get_default_dtype()
    torch.set_default_dtype(getattr(torch, plan.get("dd") or "float32"))
    try:
        return fn()
    finally:
        torch.set_default_dtype(was)


def plainer(simpler):
    def wrapped(plan):
        if plan.get("dd"):
            yield {k: v for k, v in plan.items() if k != "dd"}
        yield from simpler(plan)

    return wrapped


def hash_bytes(x):
    import zlib

    if not isinstance(x, bytes):
        x = str(x).encode()
    return zlib.crc32(x) | (zlib.adler32(x) << 24)


# --------------------------------------------------------------------------
# torch side (imported late, so that the lock seam is in place first)


class InjectedInterrupt(KeyboardInterrupt):
    pass


class InjectedMemoryError(MemoryError):
    pass


LINE_FAULTS = {"interrupt": InjectedInterrupt, "memerr": InjectedMemoryError}
InjectedOOM = None
SimMode = None


def in_backward():
    import torch

    return torch._C._current_graph_task_id() != -1


def is_injected(e):
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if isinstance(e, (InjectedInterrupt, InjectedMemoryError, InjectedOOM)):
            return True
        if "injected" in str(e):
            return True
        e = e.__cause__ or e.__context__
    return False


def boot(repo=None):
    """Install every seam, then import the library.  Idempotent."""
    global InjectedOOM, SimMode
    repo = repo or os.environ.get("SIM_REPO", "/repo")
    if InjectedOOM is not None:
        return
    install_lock_seam()
    sys.dont_write_bytecode = True
    import warnings

    warnings.filterwarnings("ignore")
    import torch
    from torch.utils._python_dispatch import TorchDispatchMode

    torch.set_num_threads(1)
    if repo not in sys.path:
        sys.path.insert(0, repo)
    import importlib
    import pkgutil

    import torch_struct

    for m in pkgutil.walk_packages(torch_struct.__path__, "torch_struct."):
        if ".data" in m.name or ".networks" in m.name:
            continue
        try:
            importlib.import_module(m.name)
        except ImportError:
            pass

    class InjectedOOM_(RuntimeError):
        pass

    InjectedOOM = InjectedOOM_

    class SimMode_(TorchDispatchMode):
        """Around one library call of one task."""

        def __init__(self, kernel, task, adversary=None):
            super().__init__()
            self.kernel, self.task, self.adversary = kernel, task, adversary

        def __torch_dispatch__(self, func, types_, args=(), kwargs=None):
            self.kernel.dispatch(self.task, func)
            kwargs = kwargs or {}
            if self.adversary is not None:
                out = self.adversary(func, args, kwargs)
                if out is not None:
                    return out
            return func(*args, **kwargs)

    SimMode = SimMode_
    # warm up whatever torch initialises lazily, outside any simulation
    x = torch.zeros(2, 2, requires_grad=True)
    torch.autograd.grad(x.logsumexp(0).sum(), x)
    torch.distributions.Gumbel(0, 1).sample((2,))
    n = install_line_events(os.path.dirname(torch_struct.__file__))
    if n < 50:
        raise HarnessError("only %d library functions found" % n)


def ambient():
    "What a library call must leave as it was."
    import torch

    return (
        torch.is_grad_enabled(),
        torch.get_default_dtype(),
        torch.is_inference_mode_enabled(),
    )


def ambient_check(before, what):
    import torch

    after = ambient()
    if after != before:
        torch.set_grad_enabled(before[0])
        torch.set_default_dtype(before[1])
        raise Violation(
            "ambient",
            "(grad mode, default dtype, inference mode) %s became %s after %s" % (before, after, what),
        )
