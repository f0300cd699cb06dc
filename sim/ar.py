"""The autoregressive world: searches, samples and scores of a stub model whose
answer depends on the whole prefix and on the row, with model failures, library
failures, nested and interleaved searches.

The stub keeps the consumed prefix and the row's identity in several state
tensors of different layout, and refuses states that do not belong together.
"""
import copy
import gc
import itertools
import math
import random
import weakref

import torch

from . import kernel as K
from . import models as M
from . import stats as S
from .kernel import Violation
from .sampling import Adversary, POLICIES, SUSPECT, CONFIRM, CONFIRM_FACTOR
from .world import Result, _switches, _with

D = torch.float64


class ModelError(RuntimeError):
    "Raised by the stub on schedule."


# --------------------------------------------------------------------------
# generation


def gen_model(R, soft=False, long=True):
    m = dict(
        C=R.choice([1, 2, 2, 3, 3, 4, 5]),
        N=R.choice([1, 2, 3, 3, 4, 5]),
        ms=R.randrange(1 << 30),
        kind="rnn" if soft or R.random() < 0.3 else "table",
        dt=R.choice(["f64", "f64", "f32"]),
        sc=R.choice([0.5, 1.0, 2.0]),
        layout=R.randrange(8),
        theta=R.random() < 0.4,
    )
    if long and R.random() < 0.12:
        m["C"], m["N"] = R.randint(1, 9), R.randint(5, 12)
    else:
        while m["C"] ** m["N"] > 300:
            m["N"] -= 1
    return m


def gen_dist(R, models, mi=None):
    mi = R.randrange(len(models)) if mi is None else mi
    m = models[mi]
    return dict(
        m=mi,
        B=R.choice([1, 2, 2, 3, 4] if R.random() < 0.93 else [5, 6, 8]),
        cs=R.randrange(1 << 20),
        start=R.randrange(m["C"]),
        norm=R.random() < 0.7,
        N=max(1, m["N"] - (R.random() < 0.25)),
        view=R.randrange(3),
    )


POISON = ["nan", "nan", "inf", "-inf", "1e30", "-1e30"]
SEARCH = ["greedy", "beam", "beam", "beam", "bmax"]
DRAW = ["sample", "sample", "swor", "logp", "slogp"]


def gen_op(R, models, dists, kinds, gm=0.2):
    i = R.randrange(len(dists))
    m = models[dists[i]["m"]]
    k = R.choice(kinds)
    if k == "temp" and m["kind"] != "rnn":
        k = "greedy"
    op = {"op": k, "d": i}
    if k in ("beam", "bmax"):
        x = R.random()
        op["k"] = R.randint(1, 7) if x < 0.93 else R.randint(8, 14) if x < 0.985 else R.randint(15, 30)
    if k == "swor":
        op["k"] = R.randint(1, min(6, m["C"] ** dists[i]["N"]))
        op["pol"], op["as"] = R.choice(POLICIES + [None]), R.randrange(1 << 30)
    if k == "sample":
        op["n"] = R.choice([1, 2, 3, 7] if R.random() < 0.93 else [10, 11, 16, 20, 33, 65])
        op["pol"], op["as"] = R.choice(POLICIES + [None]), R.randrange(1 << 30)
    if k in ("logp", "slogp"):
        op["n"] = R.randint(1, 4)
        op["es"] = R.randrange(1 << 30)
    if k == "temp":
        op["alpha"] = R.choice([0.5, 1.0, 3.0])
    if R.random() < gm:
        op["gm"] = "off"
    return op


@K.configured
def generate(prop, seed):
    R = random.Random("ar/%s/%d" % (prop, seed))
    plan = {"world": "ar", "prop": prop, "seed": seed}
    if prop == "C09" and R.random() < 0.06:
        m = gen_model(R, long=False)
        m["C"], m["N"] = R.choice([(2, 1), (2, 2), (2, 3), (3, 2), (4, 2), (3, 3)])
        m["sc"] = R.choice([0.3, 0.7, 1.2])
        d = gen_dist(R, [m])
        d["B"], d["N"] = R.randint(2, 4), m["N"]
        plan.update(
            kind="law", models=[m], dists=[d], method=R.choice(["sample", "sample", "swor1"]), n=R.choice([256, 512])
        )
        return plan
    models = [gen_model(R, soft=R.random() < 0.2) for _ in range(R.choice([1, 1, 2]))]
    dists = [gen_dist(R, models) for _ in range(R.randint(1, 3))]
    if R.random() < 0.5:
        d = copy.deepcopy(dists[0])
        what = R.choice(["B", "cs", "start", "norm", "N"])
        d[what] = {
            "B": d["B"] + 1,
            "cs": R.randrange(1 << 20),
            "start": R.randrange(models[d["m"]]["C"]),
            "norm": not d["norm"],
            "N": max(1, d["N"] - 1),
        }[what]
        dists.append(d)
    if prop == "C09":
        for m in models:
            if m["kind"] == "table" and R.random() < 0.35:
                m["hard"] = R.choice([0.3, 0.6, 0.9])
    kinds = {
        "C01": SEARCH + DRAW,
        "C02": SEARCH + DRAW,
        "C03": SEARCH + DRAW,
        "C08": SEARCH + ["temp"],
        "C09": DRAW,
        "C11": SEARCH + ["temp"] + DRAW,
        "C12": ["bmax", "greedy", "logp", "slogp"],
        "C13": SEARCH + DRAW + ["temp"],
        "C14": SEARCH + DRAW + ["temp"],
        "C15": SEARCH + DRAW,
        "C06": ["sample", "swor", "temp"],
    }[prop]
    if prop == "C15":
        probes = [dict(gen_op(R, models, dists, kinds), probe=True, new=True) for _ in range(R.randint(1, 3))]
        for i, op in enumerate(probes):
            op["probe"] = i
            op.pop("pol", None)
        ops = probes + probes
        for _ in range(2):
            h = []
            for _ in range(R.randint(5, 20)):
                op = gen_op(R, models, dists, kinds)
                op["new"] = R.random() < 0.3
                if R.random() < 0.15:
                    op["f"] = [R.choice(["oom", "interrupt"]), R.randint(1, R.choice([10, 40, 150]))]
                elif R.random() < 0.1:
                    op["mf"] = [R.randint(0, 2), "raise"]
                h.append(op)
            op = dict(R.choice(probes), rep=R.choice([30, 60, 100]), new=R.random() < 0.5)
            del op["probe"]
            ops = ops + h + [op] + probes
        plan.update(kind="ops", models=models, dists=dists, tasks=[copy.deepcopy(ops)])
        return plan
    if prop == "C12":
        for m in models:
            m["theta"] = True
        held, ops = [], []
        for _ in range(R.randint(4, 14)):
            if not held or R.random() < 0.4:
                op = gen_op(R, models, dists, kinds, gm=0)
                if R.random() < 0.15:
                    op["f"] = [R.choice(["oom", "interrupt"]), R.randint(1, R.choice([10, 40, 150]))]
                op["h"] = len(held)
                held.append(op["h"])
            else:
                op = {"op": "pull", "h": R.choice(held), "ws": R.randrange(1 << 30)}
                x = R.random()
                if x < 0.2:
                    op["f"] = ["oom", R.randint(1, R.choice([5, 20, 60]))]
                elif x < 0.5:
                    op["add"] = True
            ops.append(op)
        plan.update(kind="ops", models=models, dists=dists, tasks=[ops])
        return plan
    n_tasks = 1
    if prop == "C02":
        n_tasks = R.choice([2, 2, 3])
    elif prop != "C01" and R.random() < 0.25:
        n_tasks = 2
    tasks = []
    for _ in range(n_tasks):
        ops = []
        for _ in range(R.randint(2, 6)):
            op = gen_op(R, models, dists, kinds)
            x = R.random()
            if prop in ("C01", "C02", "C11"):
                x = 1.0
            elif prop == "C03":
                x *= 0.6
            if prop == "C11" and R.random() < 0.85:
                # the model's answers about one row turn bad from some call on
                B, C = dists[op["d"]]["B"], models[dists[op["d"]]["m"]]["C"]
                bad = [c for c in range(C) if R.random() < R.choice([0.3, 1.0])] or [R.randrange(C)]
                op["po"] = [R.choice([0, 0, 0, 1, 2, 3]), R.randrange(B), R.choice(POISON), bad]
            if x < 0.25 and op["op"] != "temp":
                if op["op"] in ("sample",):
                    op["mf"] = [R.randint(0, 4), "raise"]
                else:
                    op["mf"] = [R.randint(0, 4), R.choice(["raise", "batch", "batch-", "classes", "steps", "state", "state-"])]
                if op["op"] in ("logp", "slogp"):
                    op["mf"] = [0, R.choice(["raise", "batch", "classes", "steps"])]
            elif x < 0.4:
                op["f"] = [R.choice(["oom", "interrupt"]), R.randint(1, R.choice([10, 40, 150]))]
            elif x < 0.5 and n_tasks == 1:
                op["nest"] = [R.randint(0, 3), gen_op(R, models, dists, kinds)]
            ops.append(op)
            if ("mf" in op or "f" in op) and R.random() < 0.7:
                o2 = copy.deepcopy(op)
                o2.pop("mf", None)
                o2.pop("f", None)
                ops.append(o2)
        tasks.append(ops)
    if n_tasks > 1:
        plan["switches"] = _switches(R, n_tasks, [3, 10, 30])
    if prop == "C02" and R.random() < 0.3:
        # lockstep: the same kind of call on one distribution or on alike ones
        k = R.choice(kinds)
        dists = [copy.deepcopy(dists[0]) for _ in range(n_tasks)]
        for d in dists[1:]:
            d["cs"] = R.randrange(1 << 20)
        one = R.random() < 0.5
        tasks = []
        for t in range(n_tasks):
            i = 0 if one else t
            tasks.append([dict(gen_op(R, models, [dists[i]], [k]), d=i) for _ in range(R.randint(1, 3))])
        plan["switches"] = _switches(R, n_tasks, [0.5, 1, 2], [60, 200, 400])
    plan.update(kind="ops", models=models, dists=dists, tasks=tasks)
    if prop == "C13":
        plan["watch"] = True
    if prop == "C14":
        plan["leak"] = True
    return plan


# --------------------------------------------------------------------------
# the stub


def make_stub(sim, m):
    dt = M.DT[m["dt"]]
    C = m["C"]

    class Stub(torch.nn.Module):
        def __init__(self):
            super().__init__()
            g = torch.Generator().manual_seed(m["ms"])
            self.cache = {}
            th = torch.randn(C, generator=g, dtype=D).to(dt) if m["theta"] else torch.zeros(C, dtype=dt)
            self.theta = torch.nn.Parameter(th, requires_grad=m["theta"])
            H = 4
            if m["kind"] == "rnn":
                r = lambda *s: torch.randn(*s, generator=g, dtype=D) * 1.2
                self.A, self.E, self.O = r(H, H), r(C, H), r(H, C) * m["sc"]
                self.I = r(64, H)

        # reference side: one row, float64
        def table(self, ctx, prefix):
            key = (ctx, prefix)
            if key not in self.cache:
                r = random.Random("%d/%s" % (m["ms"], key))
                x = [r.gauss(0, 1) * m["sc"] for _ in range(C)]
                if m.get("hard"):
                    # some choices are impossible after this prefix
                    stays = r.randrange(C)
                    x = [v if c == stays or r.random() > m["hard"] else v - 1e3 for c, v in enumerate(x)]
                self.cache[key] = torch.tensor(x, dtype=D)
            return self.cache[key]

        def ref_logits(self, ctx, prefix, theta=None):
            theta = self.theta.detach() if theta is None else theta
            if m["kind"] == "table":
                return self.table(ctx, prefix) + theta.to(D)
            h = self.I[ctx % 64]
            for t in prefix:
                h = torch.tanh(h @ self.A + self.E[t])
            return h @ self.O + theta.to(D)

        # library side
        def forward(self, inputs, state):
            return sim.model_call(self, m, inputs, state)

        def compute(self, inputs, state, fed):
            n = inputs.shape[0]
            T = inputs.shape[1]
            if m["kind"] == "rnn":
                return self.rnn(inputs, state, fed)
            ctx, hist = self.unpack(state)
            out = []
            for i in range(n):
                for t in range(T):
                    hist[i] = hist[i] + (int(inputs[i, t]),)
                    out.append(self.table(ctx[i], hist[i]))
                    fed.add((ctx[i], hist[i]))
            logits = torch.stack(out).view(n, T, C).to(dt) + self.theta
            return logits, self.pack(ctx, hist)

        def rnn(self, inputs, state, fed):
            h = state[-1].to(D).reshape(state[-1].shape[0], -1)
            if not bool((state[0].reshape(len(h), -1)[:, 0].long() == (h[:, -1] * 64).round().long()).all()):
                sim.bad("state-mixed", "state tensors of different rows arrive together")
            tag, h = h[:, -1:], h[:, :-1]
            if inputs.dim() == 2 and inputs.shape[1] == 1:
                fed.update(zip((tag[:, 0] * 64).round().long().tolist(), inputs[:, 0].tolist()))
            outs = []
            for t in range(inputs.shape[1]):
                x = inputs[:, t]
                e = self.E[x] if x.dim() == 1 else x.to(D) @ self.E
                h = torch.tanh(h @ self.A + e)
                outs.append(h @ self.O)
            logits = torch.stack(outs, 1).to(dt) + self.theta
            h = torch.cat([h, tag], 1)
            return logits, self.shape_state(state[0], h)

        def rows(self, state):
            if m["kind"] == "rnn":
                return [int(x) for x in state[0]]
            return self.unpack(state)[0]

        def shape_state(self, first, h):
            if m["layout"] & 1:
                h = h.reshape(len(h), 1, -1)
            return (first, h)

        # state layouts of the table model: identity + prefix, several ways
        def pack(self, ctx, hist):
            lay = m["layout"]
            c = torch.tensor(ctx)
            L = max(len(h) for h in hist)
            if lay & 1:
                c = c.view(-1, 1).to(D)
            h = torch.full((len(hist), L + 1), -1)
            for i, x in enumerate(hist):
                h[i, 1 : len(x) + 1] = torch.tensor(x, dtype=torch.long)
            h[:, 0] = torch.tensor(ctx)
            if not lay & 2:
                # fixed width
                w = torch.full((len(hist), max(12, m["N"] + 3)), -1)
                w[:, : L + 1] = h
                h = w
            st = [c, h]
            if lay & 4:
                st.append(torch.stack([torch.tensor(ctx).to(D) + 0.5] * 4, 1).view(-1, 2, 2).transpose(1, 2))
                st = [st[1], st[2], st[0]]
            return tuple(st)

        def unpack(self, state):
            lay = m["layout"]
            st = list(state)
            if lay & 4:
                st = [st[2], st[0], st[1]]
            ctx = [int(x) for x in st[0].reshape(len(st[0]), -1)[:, 0]]
            hist = []
            for i, row in enumerate(st[1].tolist()):
                if row[0] != ctx[i]:
                    sim.bad("state-mixed", "state tensors of rows %d and %d arrive together" % (row[0], ctx[i]))
                hist.append(tuple(x for x in row[1:] if x >= 0))
            if lay & 4:
                for i, x in enumerate(st[2][:, 0, 0].tolist()):
                    if x != ctx[i] + 0.5:
                        sim.bad("state-mixed", "state tensors of rows %g and %d arrive together" % (x, ctx[i]))
            return ctx, hist

        def init_state(self, ctx, view):
            if m["kind"] == "rnn":
                h = torch.cat([self.I[[c % 64 for c in ctx]], torch.tensor(ctx)[:, None].to(D) / 64], 1)
                st = self.shape_state(torch.tensor(ctx), h)
            else:
                st = self.pack(ctx, [() for _ in ctx])
            out = []
            for x in st:
                if view == 1:
                    # every second row of a larger buffer
                    big = torch.full((2 * x.shape[0],) + x.shape[1:], 7).to(x.dtype)
                    big[::2] = x
                    x = big[::2]
                elif view == 2 and x.dim() > 1:
                    x = x.transpose(0, 1).contiguous().transpose(0, 1)
                out.append(x)
            return tuple(out)

    return Stub()


# --------------------------------------------------------------------------
# execution


class Sim:
    def __init__(self, plan):
        import torch_struct

        self.ts = torch_struct
        self.plan = plan
        self.judged = 0
        self.watch = []
        self.current = {}
        self.pending = None
        self.dead = []
        self.work = {}
        self.held = {}
        self.grads = {}

    def bad(self, cls, detail):
        v = Violation(cls, detail)
        self.pending = v
        raise v

    # watch (C13) ------------------------------------------------------------
    def watch_add(self, label, x):
        if not self.plan.get("watch"):
            return
        if isinstance(x, (tuple, list)):
            for y in x:
                self.watch_add(label, y)
            return
        v = x.detach().numpy()
        self.watch.append((label, v, v.tobytes()))
        if len(self.watch) > 60:
            self.watch.pop(24)

    def watch_check(self, where):
        for label, v, b in self.watch:
            if v.tobytes() != b:
                raise Violation("modified", "%s changed %s" % (label, where))

    def monitor(self, t, code, line):
        self.watch_check("while %s runs (line %d)" % (code.co_qualname, line))

    # released (C14) ---------------------------------------------------------
    def weak_add(self, label, x):
        if not self.plan.get("leak"):
            return
        if isinstance(x, (tuple, list)):
            for y in x:
                self.weak_add(label, y)
            return
        self.dead.append((label, weakref.ref(x)))

    def released(self):
        self.dists, self.stubs, self.watch, self.current = {}, {}, [], {}
        for t in self.k.tasks:
            t.fn = t.error = None
        gc.collect()
        if any(n.endswith("in backward") for n in self.k.fired):
            self.k.count("no leak verdict (torch)")
            return
        alive = sorted({n for n, w in self.dead if w() is not None})
        if alive:
            raise Violation("leak", "still alive after everything was dropped: %s" % ", ".join(alive))

    # the model's side of a call -----------------------------------------------
    def model_call(self, stub, m, inputs, state):
        cx = self.current[K._thread.get_ident()][-1]
        j = cx["calls"]
        cx["calls"] += 1
        t = cx["t"]
        was, t.in_op = t.in_op, False
        try:
            if "nest" in cx["op"] and cx["op"]["nest"][0] == j:
                self.k.count("nested search")
                with torch.enable_grad():
                    self.do(t, cx["op"]["nest"][1])
            mf = cx["op"].get("mf")
            if mf and mf[0] == j:
                self.k.count("model failure:" + mf[1])
                cx["failed"] = mf[1]
                if mf[1] == "raise":
                    raise ModelError("scheduled")
            self.watch_add("state given to the model", state)
            logits, st = stub.compute(inputs, state, cx["fed"])
            po = cx["op"].get("po")
            if po and j >= po[0]:
                self.k.count("corruption:model")
                cx["corrupt"] = po[1]
                row = self.dists[cx["op"]["d"]][1][po[1]]
                hit = torch.zeros_like(logits, dtype=torch.bool)
                at = torch.tensor([c == row for c in stub.rows(state)])
                for c in po[3]:
                    hit[..., c] = at[:, None]
                logits = torch.where(hit, torch.full_like(logits, float(po[2])), logits)
            if mf and mf[0] == j:
                if mf[1] == "batch":
                    logits = torch.cat([logits, logits[:1]], 0)
                elif mf[1] == "batch-":
                    logits = logits[:-1]
                elif mf[1] == "classes":
                    logits = torch.cat([logits, logits[..., :1]], -1)
                elif mf[1] == "steps":
                    logits = torch.cat([logits, logits[:, :1]], 1)
                elif mf[1] == "state":
                    st = tuple(torch.cat([s, s[:1]], 0) if i == len(st) - 1 else s for i, s in enumerate(st))
                elif mf[1] == "state-":
                    st = tuple(s[:-1] if i == len(st) - 1 else s for i, s in enumerate(st))
            self.watch_add("state returned by the model", st)
            self.watch_add("logits returned by the model", logits)
            self.weak_add("logits of the model", logits)
            self.weak_add("state of the model", st)
            return logits, st
        finally:
            t.in_op = was

    def dist(self, i):
        d = self.plan["dists"][i]
        if i not in self.dists:
            stub = self.stub(d["m"])
            R = random.Random(d["cs"])
            ctx = R.sample(range(60), d["B"])
            init = stub.init_state(ctx, d["view"])
            self.watch_add("initial state", init)
            self.weak_add("initial state", init)
            dd = self.ts.Autoregressive(
                stub, init, self.plan["models"][d["m"]]["C"], d["N"], normalize=d["norm"], start_class=d["start"]
            )
            self.weak_add("distribution", dd)
            self.weak_add("model", stub)
            self.dists[i] = (dd, ctx)
        return self.dists[i]

    def stub(self, mi):
        if mi not in self.stubs:
            self.stubs[mi] = make_stub(self, self.plan["models"][mi])
        return self.stubs[mi]

    # one library call -----------------------------------------------------------
    def call(self, t, op, fn, adversary=None):
        with torch.set_grad_enabled(op.get("gm") != "off"):
            before = K.ambient()
            out = self.call_in(t, op, fn, adversary)
            K.ambient_check(before, op["op"])
        return out

    def call_in(self, t, op, fn, adversary):
        me = K._thread.get_ident()
        cx = dict(op=op, calls=0, t=t, fed=set(), failed=None, corrupt=None)
        stack = self.current.setdefault(me, [])
        stack.append(cx)
        outer = (t.fault, t.in_op)
        if len(stack) == 1:
            t.op_lines = t.op_disp = 0
            t.fault = K.Fault(*op["f"]) if op.get("f") else None
        try:
            t.in_op = True
            with K.SimMode(self.k, t, adversary):
                out = fn()
            if self.pending is not None:
                raise self.pending
            return "ok", out, cx
        except (Violation, K.StepCap, K.Deadlock):
            raise
        except BaseException as e:
            if self.pending is not None:
                raise self.pending
            f = t.fault
            if f is not None and f.fired and K.is_injected(e):
                if len(stack) > 1:
                    raise
                e.__traceback__ = None
                return "injected", None, cx
            if isinstance(e, K.HarnessError):
                raise
            if cx["failed"]:
                return "failed", None, cx
            if cx["corrupt"] is not None and isinstance(e, (ValueError, RuntimeError)):
                self.k.count("refused (corrupt row)")
                return "refused", None, cx
            raise Violation("error:" + op["op"], "%s raised %s: %s" % (op["op"], type(e).__name__, str(e)[:300]))
        finally:
            stack.pop()
            if stack:
                t.in_op = outer[1]
            else:
                t.in_op = False
                t.fault = None

    # reference ---------------------------------------------------------------
    def scores(self, d, stub, ctx, prefix, theta=None):
        x = stub.ref_logits(ctx, prefix, theta)
        return x.log_softmax(-1) if d["norm"] else x

    def ref_beam(self, d, stub, ctx, k, theta=None):
        """[(path, score)], best first, and the smallest gap met."""
        C = self.plan["models"][d["m"]]["C"]
        hyps = [((), torch.zeros((), dtype=D))]
        gap = math.inf
        for _ in range(d["N"]):
            cand = []
            for p, s in hyps:
                x = self.scores(d, stub, ctx, (d["start"],) + p, theta)
                cand += [(p + (c,), s + x[c]) for c in range(C)]
            cand.sort(key=lambda z: -float(z[1]))
            for a, b in zip(cand[:k], cand[1 : k + 1]):
                gap = min(gap, float(a[1] - b[1]))
            hyps = cand[:k]
        return hyps, gap

    def tol(self, d):
        return 1e-6 if self.plan["models"][d["m"]]["dt"] == "f64" else 1e-3

    def path(self, x, what):
        """One-hot N x C to a tuple of classes."""
        if not bool(((x == 0) | (x == 1)).all()) or not bool((x.sum(-1) == 1).all()):
            raise Violation("path:" + what, "%s is not a sequence of one-hot choices: %s" % (what, x.tolist()))
        return tuple(int(i) for i in x.argmax(-1))

    def expect(self, cond, cls, msg):
        if not cond:
            raise Violation(cls, msg)

    def compare_work(self, t, op):
        if "probe" not in op:
            return
        seen = self.work.setdefault(op["probe"], [])
        now = (t.op_lines, t.op_disp)
        self.k.note(str(now).encode())
        seen.append(now)
        if len(seen) > 2:
            self.judged += 1
            for x, what in ((0, "source lines"), (1, "tensor operations")):
                base = max(seen[0][x], seen[1][x])
                self.expect(
                    now[x] <= base * 1.1 + 30,
                    "work-grows",
                    "%s took %d %s, %d the first times" % (op["op"], now[x], what, base),
                )

    def asked(self, d, m, ctx, p, cx, what):
        "The model was asked about this row and every prefix of the path."
        told = (d["start"],) + p
        for j in range(len(p)):
            pre = told[: j + 1]
            self.expect(
                (ctx, pre if m["kind"] == "table" else pre[-1]) in cx["fed"],
                "prefix",
                "%s is %s but the model was never asked what follows %s" % (what, p, pre),
            )

    def impossible(self, d, m, stub, ctx, p):
        "The first step at which the model rules the path out."
        told = (d["start"],) + p
        for j in range(len(p)):
            if m.get("hard") and float(stub.table(ctx, told[: j + 1])[told[j + 1]]) < -500:
                return j
        return None

    # operations ----------------------------------------------------------------
    def do(self, t, op):
        if op.get("new"):
            self.dists.pop(op["d"], None)
        if "rep" in op:
            for _ in range(op["rep"]):
                self.do(t, {k: v for k, v in op.items() if k != "rep"})
            return
        k = op["op"]
        self.k.count("op:" + k)
        if k == "pull":
            if op["h"] in self.held:
                self.pull(t, op, *self.held[op["h"]])
            return
        dd, ctx = self.dist(op["d"])
        d = self.plan["dists"][op["d"]]
        m = self.plan["models"][d["m"]]
        stub = self.stub(d["m"])
        B, N, C = d["B"], d["N"], m["C"]
        adv = Adversary(self.k, op["pol"], op["as"]) if op.get("pol") else None
        if k == "temp":
            adv = Adversary(self.k, "likeliest", 0)
        ev = None
        if k in ("logp", "slogp"):
            R = random.Random(op["es"])
            seqs = [[tuple(R.randrange(C) for _ in range(N)) for _ in range(B)] for _ in range(op["n"])]
            ev = torch.tensor(seqs)
            if k == "logp":
                ev = torch.nn.functional.one_hot(ev, C)
            self.watch_add("event", ev)
        fn = {
            "greedy": lambda: dd.greedy_max(),
            "beam": lambda: dd.beam_topk(op["k"]),
            "bmax": lambda: dd._beam_max(op["k"]),
            "temp": lambda: dd.greedy_tempmax(op["alpha"]),
            "sample": lambda: dd.sample((op["n"],)),
            "swor": lambda: dd.sample_without_replacement((op["k"],)),
            "logp": lambda: dd.log_prob(ev),
            "slogp": lambda: dd.log_prob(ev, sparse=True),
        }[k]
        st, out, cx = self.call(t, op, fn, adv)
        if self.plan.get("watch"):
            self.watch_check("after " + k)
        if st == "ok" and cx["failed"]:
            raise Violation("accepted:" + cx["failed"], "%s returned a result although the model's answer had a wrong shape" % k)
        if st != "ok":
            return
        self.k.note(M.digest(out))
        if self.plan["prop"] == "C15":
            self.compare_work(t, op)
            return
        self.check_grads(k)
        self.judged += 1
        self.watch_add("result of an earlier " + k, out)
        self.weak_add("result", out)
        try:
            self.judge(op, d, m, stub, ctx, out, cx, ev)
        except Violation:
            raise
        except Exception as e:
            raise Violation("malformed:" + k, "%s: %s: %s" % (k, type(e).__name__, str(e)[:200]))

    def judge(self, op, d, m, stub, ctx, out, cx, ev):
        k = op["op"]
        B, N, C = d["B"], d["N"], m["C"]
        tol = self.tol(d)
        rows = [b for b in range(B) if b != cx["corrupt"]]
        if k in ("logp", "slogp"):
            seqs = ev if k == "slogp" else ev.argmax(-1)
            self.expect(tuple(out.shape) == (op["n"], B), "shape:" + k, str(tuple(out.shape)))
            for i in range(op["n"]):
                for b in rows:
                    p = (d["start"],) + tuple(seqs[i, b].tolist())
                    w = sum(float(self.scores(d, stub, ctx[b], p[: j + 1])[p[j + 1]]) for j in range(N))
                    self.expect(
                        abs(float(out[i, b]) - w) <= tol * (1 + abs(w)),
                        "wrong-score",
                        "log-probability %.9g instead of %.9g (sample %d row %d)" % (out[i, b], w, i, b),
                    )
            if "h" in op:
                self.held[op["h"]] = (d, stub, ctx, out, seqs)
                return
            if out.requires_grad and len(rows) == B:
                self.theta_grad(op, d, stub, ctx, out, seqs)
            return
        if k == "sample":
            self.expect(tuple(out.shape) == (op["n"], B, N, C), "shape:sample", str(tuple(out.shape)))
            for i in range(op["n"]):
                for b in rows:
                    p = self.path(out[i, b], "sample")
                    self.asked(d, m, ctx[b], p, cx, "sample %d row %d" % (i, b))
                    bad = self.impossible(d, m, stub, ctx[b], p)
                    self.expect(bad is None, "impossible", "sample %d row %d is %s, which cannot be at step %s" % (i, b, p, bad))
            return
        if k == "swor":
            self.expect(tuple(out.shape) == (op["k"], B, N, C), "shape:swor", str(tuple(out.shape)))
            for b in rows:
                ps = [self.path(out[i, b], "swor") for i in range(op["k"])]
                self.expect(len(set(ps)) == len(ps), "repeated", "row %d: sampling without replacement returned %s" % (b, ps))
                for p in ps:
                    self.asked(d, m, ctx[b], p, cx, "sample without replacement of row %d" % b)
                if m.get("hard") and C**N <= 300:
                    can = [q for q in itertools.product(range(C), repeat=N) if self.impossible(d, m, stub, ctx[b], q) is None]
                    for p in ps:
                        bad = self.impossible(d, m, stub, ctx[b], p)
                        self.expect(
                            bad is None or len(can) < op["k"],
                            "impossible",
                            "row %d: sampling without replacement returned %s, which cannot be at step %s" % (b, p, bad),
                        )
            return
        if k == "temp":
            a, v, c = out
            self.expect(tuple(a.shape) == (B, N, C) and tuple(v.shape) == (B,) and tuple(c.shape) == (B, N, C), "shape:temp", "")
            for b in rows:
                got = float(c[b].max(-1)[0].sum())
                self.expect(abs(got - float(v[b])) <= 50 * tol * (1 + abs(got)), "wrong-score", "score %.9g, best choices score %.9g" % (v[b], got))
                # soft feedback: the model consumes softmax(alpha * scores)
                h = stub.I[ctx[b] % 64]
                x = stub.E[d["start"]]
                for t in range(N):
                    h = torch.tanh(h @ stub.A + x)
                    lg = (h @ stub.O + stub.theta.detach().to(D)).log_softmax(-1)
                    got = c[b, t].detach().to(D).log_softmax(-1)
                    self.expect(
                        bool(((got - lg).abs() <= 50 * tol * (1 + lg.abs())).all()),
                        "wrong-logits",
                        "row %d step %d: %s instead of %s" % (b, t, got.tolist(), lg.tolist()),
                    )
                    x = torch.softmax(op["alpha"] * lg, -1) @ stub.E
            return
        kk = 1 if k == "greedy" else op["k"]
        if k == "greedy":
            a, v, c = out
            self.expect(tuple(a.shape) == (B, N, C) and tuple(v.shape) == (B,) and tuple(c.shape) == (B, N, C), "shape:greedy", "%s %s %s" % (tuple(a.shape), tuple(v.shape), tuple(c.shape)))
            paths, vals = a[None], v[None]
        elif k == "beam":
            paths, vals = out, None
            self.expect(tuple(out.shape) == (kk, B, N, C), "shape:beam", str(tuple(out.shape)))
        else:
            paths, vals = None, out
            self.expect(tuple(out.shape) == (kk, B), "shape:bmax", str(tuple(out.shape)))
        if "h" in op and k == "greedy":
            vals = v[None]
        clear = True
        for b in rows:
            hyps, gap = self.ref_beam(d, stub, ctx[b], kk)
            if gap < 20 * tol:
                self.k.count("row skipped (ties)")
                clear = False
                continue
            for i, (p, s) in enumerate(hyps):
                if paths is not None:
                    got = self.path(paths[i, b], k)
                    self.expect(got == p, "wrong-path", "%s: hypothesis %d of row %d is %s, should be %s" % (k, i, b, got, p))
                if vals is not None:
                    self.expect(
                        abs(float(vals[i, b]) - float(s)) <= tol * (1 + abs(float(s))),
                        "wrong-score",
                        "%s: hypothesis %d of row %d scores %.9g, should be %.9g" % (k, i, b, vals[i, b], s),
                    )
            if k == "greedy":
                p = (d["start"],) + hyps[0][0]
                for t in range(N):
                    w = self.scores(d, stub, ctx[b], p[: t + 1])
                    self.expect(
                        bool(((c[b, t].detach().to(D) - w).abs() <= tol * (1 + w.abs())).all()),
                        "wrong-logits",
                        "greedy logits of row %d step %d: %s instead of %s" % (b, t, c[b, t].tolist(), w.tolist()),
                    )
        if "h" in op:
            if clear and kk <= C**N:
                self.held[op["h"]] = (d, stub, ctx, vals, None)
            return
        if vals is not None and clear and len(rows) == B and m["theta"] and op.get("gm") != "off" and kk <= C**N:
            self.theta_grad(op, d, stub, ctx, vals, None)

    def want_grad(self, d, stub, ctx, n, seqs, W):
        """Gradient of the weighted sum of all scores with respect to the model's parameter."""
        th = stub.theta.detach().to(D).requires_grad_(True)
        tot = 0
        for b in range(d["B"]):
            if seqs is None:
                hyps, _ = self.ref_beam(d, stub, ctx[b], n, th)
                tot = tot + sum(s * W[i, b] for i, (_, s) in enumerate(hyps))
            else:
                for i in range(len(seqs)):
                    p = (d["start"],) + tuple(seqs[i, b].tolist())
                    tot = tot + W[i, b] * sum(
                        self.scores(d, stub, ctx[b], p[: j + 1], th)[p[j + 1]] for j in range(d["N"])
                    )
        return torch.autograd.grad(tot, th)[0]

    def same_grad(self, d, what, got, want):
        tol = 20 * self.tol(d) * (1 + float(want.abs().max()))
        self.k.count("model gradients")
        self.expect(
            bool(((got.to(D) - want).abs() <= tol).all()),
            "wrong-gradient",
            "%s: gradient to the model %s instead of %s" % (what, got.tolist(), want.tolist()),
        )

    def theta_grad(self, op, d, stub, ctx, vals, seqs):
        want = self.want_grad(d, stub, ctx, vals.shape[0], seqs, torch.ones(vals.shape, dtype=D))
        try:
            (got,) = torch.autograd.grad(vals.sum(), stub.theta, retain_graph=True)
        except RuntimeError as e:
            raise Violation("wrong-gradient", "no gradient to the model: %s" % str(e)[:120])
        self.same_grad(d, op["op"], got, want)

    # backward passes (C12) ----------------------------------------------------
    def pull(self, t, op, d, stub, ctx, vals, seqs):
        W = torch.randn(vals.shape, generator=torch.Generator().manual_seed(op["ws"]), dtype=D).to(vals.dtype)
        if op.get("add"):
            fn = lambda: (vals * W).sum().backward(retain_graph=True)
        else:
            fn = lambda: torch.autograd.grad((vals * W).sum(), stub.theta, retain_graph=True)
        st, out, _ = self.call(t, op, fn)
        if st != "ok":
            return
        want = self.want_grad(d, stub, ctx, vals.shape[0], seqs, W.to(D))
        self.judged += 1
        if not op.get("add"):
            self.k.note(M.digest(out[0]))
            self.same_grad(d, "backward pass", out[0], want)
        else:
            was = self.grads.get(id(stub))
            got = stub.theta.grad
            self.same_grad(d, "accumulated", got, want if was is None else want + was)
            self.grads[id(stub)] = got.to(D).clone()
        self.check_grads("pull")

    def check_grads(self, what):
        "Nothing but the caller's own backward passes reaches the caller's gradients."
        if self.plan["prop"] != "C12":
            return
        for stub in self.stubs.values():
            was, now = self.grads.get(id(stub)), stub.theta.grad
            self.expect(
                (was is None) == (now is None) and (was is None or torch.equal(was, now.to(D))),
                "stray-gradient",
                "%s changed the gradient held by the model's parameter" % what,
            )

    # law ---------------------------------------------------------------------
    def law(self, t):
        p = self.plan
        d, m = p["dists"][0], p["models"][0]
        dd, ctx = self.dist(0)
        stub = self.stub(0)
        C, N, B = m["C"], d["N"], d["B"]
        seqs = list(itertools.product(range(C), repeat=N))
        num = {s: i for i, s in enumerate(seqs)}
        probs = []
        for b in range(B):
            q = torch.ones(len(seqs), dtype=D)
            for i, s in enumerate(seqs):
                pre = (d["start"],)
                for c in s:
                    q[i] *= float(stub.ref_logits(ctx[b], pre).softmax(-1)[c])
                    pre += (c,)
            probs.append(q)

        def draw(calls):
            out = []
            for _ in range(calls):
                if p["method"] == "sample":
                    _, o, _ = self.call(t, {"op": "sample"}, lambda: dd.sample((p["n"],)))
                else:
                    _, o, _ = self.call(t, {"op": "swor"}, lambda: big.sample_without_replacement((1,)))
                    o = o.reshape(p["n"], B, N, C)
                ids = torch.tensor(
                    [[num[self.path(o[i, b], p["method"])] for b in range(B)] for i in range(o.shape[0])]
                )
                self.k.note(ids.numpy().tobytes())
                out.append(ids)
            return torch.stack(out)  # calls x n x B

        if p["method"] == "swor1":
            init = stub.init_state(ctx * p["n"], 0)
            big = self.ts.Autoregressive(stub, init, C, N, normalize=d["norm"], start_class=d["start"])

        def tests(x):
            out = {}
            for b in range(B):
                cnt = lambda v: torch.bincount(v.reshape(-1), minlength=len(seqs)).double()
                out["probabilities/row%d" % b] = S.gof(cnt(x[:, :, b]), probs[b])
                h = x.shape[1] // 4
                for j in range(4):
                    out["quarter %d/row%d" % (j, b)] = S.gof(cnt(x[:, j * h : (j + 1) * h, b]), probs[b])
                out["neighbouring samples/row%d" % b] = S.independent(
                    x[:, 1:, b].reshape(-1), x[:, :-1, b].reshape(-1), probs[b], probs[b]
                )
                out["far samples/row%d" % b] = S.independent(
                    x[:, : 2 * h, b].reshape(-1), x[:, 2 * h : 4 * h, b].reshape(-1), probs[b], probs[b]
                )
                if len(x) > 1:
                    out["calls/row%d" % b] = S.independent(x[1:, :, b].reshape(-1), x[:-1, :, b].reshape(-1), probs[b], probs[b])
                for c in range(b):
                    out["rows %d,%d" % (c, b)] = S.independent(x[:, :, b].reshape(-1), x[:, :, c].reshape(-1), probs[b], probs[c])
            self.judged += len(out)
            return out

        bad = {k: v for k, v in tests(draw(2)).items() if v < SUSPECT}
        if bad:
            self.k.count("suspicion followed up")
            again = tests(draw(2 * CONFIRM_FACTOR))
            for name in bad:
                if again[name] < CONFIRM:
                    raise Violation(
                        "law:" + name.split("/")[0],
                        "%s: %s, p=%.3g then p=%.3g on fresh draws" % (p["method"], name, bad[name], again[name]),
                    )

    # run ------------------------------------------------------------------------
    def execute(self):
        p = self.plan
        res = Result()
        self.k = K.Kernel(monitor=self.monitor if p.get("watch") else None, step_cap=1_000_000)
        self.dists, self.stubs = {}, {}
        torch.manual_seed(p["seed"] & 0x7FFFFFFF)
        try:
            if p["kind"] == "law":
                self.k.add(self.law)
            else:
                for i in range(len(p["dists"])):
                    self.dist(i)
                sw = p.get("switches") or [[] for _ in p["tasks"]]
                for ti, ops in enumerate(p["tasks"]):

                    def body(t, ops=ops):
                        for op in ops:
                            self.do(t, op)

                    self.k.add(body, sw[ti] if ti < len(sw) else [])
                body = None
            self.k.run()
            if p.get("leak"):
                self.released()
        except Violation as v:
            res.violation = (v.cls, v.detail)
        except K.StepCap:
            res.violation = ("no-termination", "a call is still running after %d lines, at %s" % (self.k.step_cap, self.k.where))
        except K.Deadlock:
            res.violation = ("deadlock", "every caller waits for a lock")
        res.stats = dict(self.k.fired)
        res.stats["steps"] = self.k.total
        res.stats["judged"] = self.judged
        res.digest = self.k.hash
        res.sig = (self.k.hash ^ (self.k.switch_hash << 1)) & 0xFFFFFFFFFFFFFFF if self.judged else None
        return res


def execute(plan):
    return K.configuration(plan, Sim(plan).execute)


def lists(plan):
    out = []
    for name in ("tasks", "switches"):
        for ti in range(len(plan.get(name) or ())):
            out.append(
                (
                    lambda p, name=name, ti=ti: p[name][ti],
                    lambda p, sub, name=name, ti=ti: _with(p, lambda q: q[name].__setitem__(ti, copy.deepcopy(sub))),
                )
            )
    return out


@K.plainer
def simpler(plan):
    for ti, ops in enumerate(plan.get("tasks", ())):
        for oi, op in enumerate(ops):
            for key in ("mf", "f", "gm", "nest", "pol", "po"):
                if op.get(key):
                    yield _with(plan, lambda p: p["tasks"][ti][oi].pop(key))
            if op.get("rep", 1) > 5:
                yield _with(plan, lambda p: p["tasks"][ti][oi].update(rep=op["rep"] // 2))
            for key in ("k", "n"):
                if op.get(key, 1) > 1:
                    yield _with(plan, lambda p: p["tasks"][ti][oi].update({key: op[key] - 1}))
    for i, d in enumerate(plan["dists"]):
        for key in ("B", "N"):
            if key == "B" and any(o.get("d") == i and o.get("po", [0, 0])[1] >= d["B"] - 1 for ops in plan.get("tasks", ()) for o in ops):
                continue
            if d[key] > 1:
                yield _with(plan, lambda p: p["dists"][i].update({key: d[key] - 1}))
        if d["view"]:
            yield _with(plan, lambda p: p["dists"][i].update(view=0))
    for i, m in enumerate(plan["models"]):
        if m.get("hard"):
            yield _with(plan, lambda p: p["models"][i].pop("hard"))
        if m["theta"]:
            yield _with(plan, lambda p: p["models"][i].update(theta=False))
        if m["layout"]:
            yield _with(plan, lambda p: p["models"][i].update(layout=0))
