"""The checkpointing world: products and dynamic programs computed through
checkpointed or sharded semirings, differentiated once or twice after a seeded
history of other work and failures, compared with the plain semiring."""
import copy
import gc
import random

import torch

from . import kernel as K
from . import models as M
from .kernel import Violation
from .world import Result, _switches, _with

D = torch.float64
SR = ["Log", "Log", "Max", "Std", "KMax2", "KMax3", "Entropy", "KL", "CE"]
SIZE = {"Log": 1, "Max": 1, "Std": 1, "KMax2": 2, "KMax3": 3, "Entropy": 2, "KL": 3, "CE": 3}


def semiring(ts, name):
    from torch_struct import semirings as S
    if name.startswith("KMax"):
        return ts.KMaxSemiring(int(name[4:]))
    return {
        "Log": S.LogSemiring,
        "Max": S.MaxSemiring,
        "Std": S.StdSemiring,
        "Entropy": S.EntropySemiring,
        "KL": S.KLDivergenceSemiring,
        "CE": S.CrossEntropySemiring,
    }[name]


def wrapped(ts, p):
    base = semiring(ts, p["sr"])
    if p["wrap"] == "ck":
        return ts.CheckpointSemiring(base, p["min"]) if p["min"] is not None else ts.CheckpointSemiring(base)
    if p["min"] is not None:
        return ts.CheckpointShardSemiring(base, p["max"], p["min"])
    return ts.CheckpointShardSemiring(base, p["max"])


def gen_prod(R):
    p = dict(
        sr=R.choice(SR),
        wrap=R.choice(["ck", "sh", "sh"]),
        min=R.choice([None, None, 0, 1, 4, 12, 40, 1000]),
        max=R.choice([0, 1, 2, 3, 5, 10, 30, 200, 5000]),
        kind=R.choice(["matmul"] * 5 + ["dot", "dot", "chain", "lc", "sm"]),
        ps=R.randrange(1 << 30),
        rg=R.choice([[True, True]] * 4 + [[True, False], [False, True]]),
        nl=R.random() < 0.5,
        view=R.randrange(4),
        dt=R.choice(["f64", "f64", "f32"]),
    )
    s = SIZE[p["sr"]]
    large = R.random() < 0.08
    nb = R.randint(1, 2) if large else R.randint(0, 3)
    full = [R.randint(1, 24 // nb if large else 4) for _ in range(nb)]
    if large:
        p["max"] = R.choice([0, 10, 64, 100, 300, 1000, 5000, 20000])
        p["min"] = R.choice([None, None, 0, 40, 500])
    a = [1 if R.random() < 0.25 else x for x in full]
    b = [1 if R.random() < 0.25 else x for x in full]
    if p["kind"] == "dot":
        n = R.randint(1, 4)
        p["a"], p["b"] = [s] + a + [n], [s] + b + [n]
    elif p["kind"] in ("lc", "sm"):
        p["sr"] = R.choice(["Log", "Log", "Max", "KMax2", "Entropy"])
        p["B"], p["N"], p["C"], p["K"] = R.randint(1, 3), R.randint(2, 40 if large else 6), R.randint(1, 3), R.randint(2, 3)
        p["len"] = None
        if R.random() < 0.5:
            p["len"] = [R.randint(1, p["N"]) for _ in range(p["B"])]
            p["len"][0] = p["N"]
        p["q"] = R.choice(["sum", "sum", "marginals"]) if p["sr"] == "Log" else "sum"
        p["a"] = p["b"] = None
    else:
        top = 8 if large else 3
        n, m, q = R.randint(1, top), R.randint(1, top), R.randint(1, top)
        p["a"], p["b"] = [s] + a + [n, m], [s] + b + [m, q]
        if s == 1 and R.random() < 0.15:
            p["a"], p["b"] = a + [n, m], b + [m, q]
    return p


@K.configured
def generate(prop, seed):
    R = random.Random("ckpt/%s/%d" % (prop, seed))
    plan = {"world": "ckpt", "prop": prop, "seed": seed}
    prods = [gen_prod(R) for _ in range(R.randint(1, 3))]
    if R.random() < 0.4:
        q = copy.deepcopy(prods[0])
        w = R.choice(["max", "wrap", "ps", "min"])
        q[w] = {
            "max": R.choice([0, 2, 5, 50]),
            "wrap": "ck" if q["wrap"] == "sh" else "sh",
            "ps": R.randrange(1 << 30),
            "min": R.choice([None, 0, 8]),
        }[w]
        prods.append(q)
    ops = []
    for i in range(len(prods)):
        ops.append({"op": "fwd", "p": i})
    R.shuffle(ops)
    for _ in range(R.randint(2, 7) if R.random() < 0.96 else R.randint(15, 30)):
        i = R.randrange(len(prods))
        x = R.random()
        if x < 0.7:
            op = {"op": "pull", "p": i, "ws": R.randrange(1 << 30), "order": R.choice([1, 1, 2])}
            if R.random() < 0.3:
                op["f"] = [R.choice(["oom", "oom", "interrupt", "memerr"]), R.randint(1, R.choice([5, 20, 80]))]
            if R.random() < 0.3:
                op["ng"] = True
            if R.random() < 0.2:
                op["kind"] = "backward"
                op["order"] = 1
            ops.append(op)
            if "f" in op:
                o2 = copy.deepcopy(op)
                del o2["f"]
                ops.append(o2)
        elif x < 0.8:
            op = {"op": "fwd", "p": i}
            if R.random() < 0.3:
                op["f"] = [R.choice(["oom", "interrupt"]), R.randint(1, R.choice([5, 20, 80]))]
            ops.append(op)
        elif x < 0.85:
            ops.append({"op": "gc"})
        elif x < 0.95 and prop != "C13":
            ops.append({"op": "scribble", "p": i, "ws": R.randrange(1 << 30)})
        else:
            ops.append({"op": "free", "p": i})
    plan["prods"] = prods
    plan["tasks"] = [ops]
    if prop == "C13":
        plan["watch"] = True
    if R.random() < 0.2:
        plan["tasks"].append(copy.deepcopy(ops))
        plan["switches"] = _switches(R, 2, [2, 6, 20])
    return plan


class Sim:
    def __init__(self, plan):
        import torch_struct

        self.ts = torch_struct
        self.plan = plan
        self.judged = 0
        self.fwd = {}
        self.leafs = {}
        self.dirty = set()
        self.watch = []

    def watch_add(self, label, xs):
        if self.plan.get("watch"):
            for x in xs:
                v = x.detach().numpy()
                self.watch.append((label, v, v.tobytes()))

    def monitor(self, t, code, line):
        self.watch_check("while %s runs (line %d)" % (code.co_qualname, line))

    def watch_check(self, where):
        for label, v, b in self.watch:
            if v.tobytes() != b:
                raise Violation("modified", "%s changed %s" % (label, where))

    def rand(self, seed, shape, dt):
        g = torch.Generator().manual_seed(seed)
        return torch.randn(tuple(shape), generator=g, dtype=D).to(M.DT[dt])

    def operands(self, t, i):
        key = (t.idx, i)
        if key in self.leafs:
            return self.leafs[key]
        p = self.plan["prods"][i]
        if p["kind"] == "lc":
            ls = [self.rand(p["ps"], (p["B"], p["N"] - 1, p["C"], p["C"]), p["dt"])]
        elif p["kind"] == "sm":
            ls = [self.rand(p["ps"], (p["B"], p["N"] - 1, p["K"], p["C"], p["C"]), p["dt"])]
        else:
            a, b = self.rand(p["ps"], p["a"], p["dt"]), self.rand(p["ps"] + 1, p["b"], p["dt"])
            ls = [a, b]
            if p["kind"] == "chain":
                sh = p["b"][:-2] + [p["b"][-1], 2]
                ls.append(self.rand(p["ps"] + 2, sh, p["dt"]))
        for x, r in zip(ls, list(p["rg"]) + [True]):
            x.requires_grad_(r or len(ls) == 1)
        self.leafs[key] = ls
        self.watch_add("an operand", ls)
        return ls

    def views(self, p, ls):
        out = []
        for x in ls:
            if p["nl"]:
                x = x * 1
            if p["view"] == 1 and x.dim() > 1:
                x = x.transpose(-1, -2).contiguous().transpose(-1, -2)
            elif p["view"] == 2:
                x = torch.stack([x, x], -1)[..., 0]
            out.append(x)
        return out

    def value(self, sr, p, xs):
        if p["kind"] == "dot":
            return sr.dot(xs[0], xs[1])
        if p["kind"] == "matmul":
            return sr.matmul(xs[0], xs[1])
        if p["kind"] == "chain":
            return sr.matmul(sr.matmul(xs[0], xs[1]), xs[2])
        st = self.ts.LinearChain if p["kind"] == "lc" else self.ts.SemiMarkov
        L = None if p["len"] is None else torch.tensor(p["len"])
        if p["q"] == "marginals":
            return st(sr).marginals(xs[0], L)
        if p["sr"].startswith("KMax"):
            return st(sr).sum(xs[0], L, _raw=True)
        return st(sr).sum(xs[0], L)

    def call(self, t, op, fn):
        before = K.ambient()
        out = self.call_in(t, op, fn)
        K.ambient_check(before, op["op"])
        self.watch_check("after %s" % op["op"])
        return out

    def call_in(self, t, op, fn):
        t.op_lines = t.op_disp = 0
        t.fault = K.Fault(*op["f"]) if op.get("f") else None
        try:
            t.in_op = True
            with K.SimMode(self.k, t):
                return "ok", fn()
        except (Violation, K.StepCap, K.Deadlock):
            raise
        except BaseException as e:
            if t.fault is not None and t.fault.fired and K.is_injected(e):
                return "injected", None
            if isinstance(e, K.HarnessError):
                raise
            if op.get("dirty") and "inplace operation" in str(e):
                return "refused", None
            p = self.plan["prods"][op["p"]]
            raise Violation(
                "error:" + op["op"],
                "%s of %s through %s(%s) raised %s: %s"
                % (op["op"], p["kind"], p["wrap"], p["sr"], type(e).__name__, str(e)[:300]),
            )
        finally:
            t.in_op = False
            t.fault = None

    def pull(self, out, ls, ws, order, kind=None):
        xs = [x for x in ls if x.requires_grad]
        w = self.rand(ws, out.shape, "f64").to(out.dtype)
        loss = (w * out).sum()
        if kind == "backward":
            loss.backward(retain_graph=True)
            return None
        g = torch.autograd.grad(loss, xs, create_graph=order == 2, retain_graph=True, allow_unused=True)
        if order == 2:
            l2 = sum((self.rand(ws + 1 + j, y.shape, "f64").to(y.dtype) * y).sum() for j, y in enumerate(g) if y is not None)
            if not isinstance(l2, torch.Tensor) or not l2.requires_grad:
                return [torch.zeros_like(x) for x in xs]
            g = torch.autograd.grad(l2, xs, retain_graph=True, allow_unused=True)
        return [torch.zeros_like(x) if y is None else y for x, y in zip(xs, g)]

    def tol(self, p):
        return 1e-8 if p["dt"] == "f64" else 1e-3

    def compare(self, p, got, want, what):
        if tuple(got.shape) != tuple(want.shape):
            raise Violation("shape:" + what, "%s of %s through %s(%s): shape %s instead of %s" % (what, p["kind"], p["wrap"], p["sr"], tuple(got.shape), tuple(want.shape)))
        msg = M.close(got, want, self.tol(p) * (1 + float(want.abs().max()) if want.numel() else 1))
        if msg:
            raise Violation("wrong-" + what, "%s of %s through %s(%s), shard %s: %s" % (what, p["kind"], p["wrap"], p["sr"], p["max"], msg))

    def do(self, t, op):
        self.k.count("op:" + op["op"])
        if op["op"] == "gc":
            gc.collect()
            return
        i = op["p"]
        p = self.plan["prods"][i]
        key = (t.idx, i)
        if op["op"] == "free":
            self.fwd.pop(key, None)
            return
        ls = self.operands(t, i)
        if op["op"] == "fwd":
            xs = self.views(p, ls)
            before = [x.detach().clone() for x in xs]
            self.watch_add("an operand", xs)
            st, out = self.call(t, op, lambda: self.value(wrapped(self.ts, p), p, xs))
            for x, y in zip(xs, before):
                if not torch.equal(x.detach(), y):
                    raise Violation("modified", "an operand changed during the product")
            if st != "ok":
                return
            want = self.value(semiring(self.ts, p["sr"]), p, self.views(p, ls))
            self.compare(p, out.detach(), want.detach(), "value")
            self.k.note(M.digest(out))
            self.judged += 1
            self.fwd[key] = (out, xs, want)
            self.watch_add("an earlier product", [out])
            self.dirty.discard(key)
            return
        if key not in self.fwd:
            return
        out, xs, wout = self.fwd[key]
        if op["op"] == "scribble":
            # the caller reuses the memory of an operand it made itself
            if p["nl"]:
                self.k.count("operand overwritten")
                j = op["ws"] % len(xs)
                with torch.no_grad():
                    xs[j].copy_(self.rand(op["ws"], xs[j].shape, p["dt"]))
                self.dirty.add(key)
            return
        order = op["order"]
        if p["kind"] in ("lc", "sm") and p["q"] == "marginals":
            order = 1
        if not out.requires_grad:
            if wout.requires_grad:
                raise Violation("no-graph", "the result is cut from the graph")
            return
        want = self.pull(wout, ls, op["ws"], order)

        kind = op.get("kind")
        gl = [x for x in ls if x.requires_grad]
        # torch accumulates into gradients that share memory when an operand's
        # gradient is a view of the other's, so every pass starts without any
        olds = [None for x in gl]
        for x in gl:
            x.grad = None
        if op.get("ng"):

            def fn():
                with torch.no_grad():
                    y = out  # the backward pass runs in the caller's mode
                with torch.enable_grad():
                    return self.pull(y, ls, op["ws"], order, kind)

        else:
            fn = lambda: self.pull(out, ls, op["ws"], order, kind)
        if key in self.dirty:
            op = dict(op, dirty=True)
        st, got = self.call(t, op, fn)
        if st == "refused":
            self.k.count("overwritten operand noticed")
            return
        if kind == "backward":
            for x, old, w in zip(gl, olds, want):
                new = w if old is None else old + w
                ok = [new] if st == "ok" else [old, new]
                if not any(
                    (c is None and x.grad is None)
                    or (c is not None and x.grad is not None and M.close(x.grad, c, self.tol(p) * (1 + float(c.abs().max()))) is None)
                    or (c is not None and x.grad is None and float(c.abs().max()) == 0)
                    for c in ok
                ):
                    raise Violation("wrong-backward", "backward of %s through %s(%s): wrong gradient accumulated" % (p["kind"], p["wrap"], p["sr"]))
            if st == "ok":
                self.judged += 1
            return
        for x, old in zip(gl, olds):
            same = (x.grad is None) if old is None else (x.grad is not None and torch.equal(x.grad, old))
            if not same:
                raise Violation("grad-leak", "the recomputation left a gradient on an operand")
        if st != "ok":
            self.k.count("recomputation failed")
            return
        for g, w in zip(got, want):
            self.compare(p, g.detach(), w.detach(), "gradient%d" % order)
            self.k.note(M.digest(g))
        self.watch_add("an earlier gradient", got)
        self.judged += 1

    def execute(self):
        p = self.plan
        res = Result()
        self.k = K.Kernel(monitor=self.monitor if p.get("watch") else None)
        torch.manual_seed(p["seed"] & 0x7FFFFFFF)
        sw = p.get("switches") or [[] for _ in p["tasks"]]
        for ti, ops in enumerate(p["tasks"]):

            def body(t, ops=ops):
                for op in ops:
                    self.do(t, op)

            self.k.add(body, sw[ti] if ti < len(sw) else [])
        try:
            self.k.run()
        except Violation as v:
            res.violation = (v.cls, v.detail)
        except K.StepCap:
            res.violation = ("no-termination", "a call is still running after %d lines, at %s" % (self.k.step_cap, self.k.where))
        except K.Deadlock:
            res.violation = ("deadlock", "every caller waits for a lock")
        res.stats = dict(self.k.fired)
        res.stats["steps"] = self.k.total
        res.stats["judged"] = self.judged
        res.digest = self.k.hash
        res.sig = (self.k.hash ^ (self.k.switch_hash << 1)) & 0xFFFFFFFFFFFFFFF if self.judged else None
        return res


def execute(plan):
    return K.configuration(plan, Sim(plan).execute)


def lists(plan):
    out = []
    for name in ("tasks", "switches"):
        for ti in range(len(plan.get(name) or ())):
            out.append(
                (
                    lambda p, name=name, ti=ti: p[name][ti],
                    lambda p, sub, name=name, ti=ti: _with(p, lambda q: q[name].__setitem__(ti, copy.deepcopy(sub))),
                )
            )
    return out


@K.plainer
def simpler(plan):
    for ti, ops in enumerate(plan["tasks"]):
        for oi, op in enumerate(ops):
            for key in ("f", "ng", "kind"):
                if op.get(key):
                    yield _with(plan, lambda p: p["tasks"][ti][oi].pop(key))
            if op.get("order") == 2:
                yield _with(plan, lambda p: p["tasks"][ti][oi].update(order=1))
    for i, q in enumerate(plan["prods"]):
        if q["nl"]:
            yield _with(plan, lambda p: p["prods"][i].update(nl=False))
        if q["view"]:
            yield _with(plan, lambda p: p["prods"][i].update(view=0))
        if q["dt"] == "f32":
            yield _with(plan, lambda p: p["prods"][i].update(dt="f64"))
