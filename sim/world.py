"""The structured-distribution world: histories of constructions, queries,
backward passes, updates, drops, corruptions and failures, by one or several
callers.  generate(prop, seed) -> plan (JSON);  execute(plan) -> Result.
"""
import copy
import gc
import random
import weakref

import torch

from . import kernel as K
from . import models as M
from .kernel import Violation

D = torch.float64
ALLF = list(M.CLS)
FORBID = ("LC", "SM", "DEP", "DEPL", "TREE")
DIFFQ = ("partition", "marginals", "entropy", "max", "kmax", "log_prob", "kl", "cross_entropy", "s_sum", "s_max", "s_marginals")
ORDER2 = ("partition", "marginals", "entropy", "log_prob", "kl", "cross_entropy", "s_sum", "s_marginals")


# --------------------------------------------------------------------------
# generation (pure in the seed)


def _pos(R):
    """Position of a fault or corruption inside a call: an absolute count, or
    (negative) per mille of the length of the call when nothing goes wrong."""
    if R.random() < 0.35:
        return R.randint(1, R.choice([8, 30, 100, 300, 700]))
    return -R.randint(1, 1000)


def _query_op(R, specs, i, gm=True, among=None):
    s = specs[i]
    a = M.gen_query(R, s, among)
    op = {"op": "q", "s": i, "a": a}
    if a["q"] in ("kl", "cross_entropy"):
        mates = [j for j, t in enumerate(specs) if compatible(s, t)]
        op["o"] = R.choice(mates)
    if gm and R.random() < 0.25 and not a["q"] in ("s_marginals", "s_argmax", "s_sample"):
        op["gm"] = "off"
    return op


def mode(op):
    if op.get("gm") == "inference":
        return torch.inference_mode()
    return torch.set_grad_enabled(op.get("gm") != "off")


def compatible(s, t):
    b = lambda x: M.BASE[x["fam"]]
    return (
        b(s) == b(t)
        and s["d"] == t["d"]
        and s["B"] == t["B"]
        and M.lens_of(s) == M.lens_of(t)
        and s["dt"] == t["dt"]
        and not M.ruled_out(s)
        and not M.ruled_out(t)
    )


def _specs(R, n, fams=None, f32=0.25, nl=0.2, rg=0.4, max_B=3, lay=True, inf=False):
    fams = fams or R.choice([ALLF, [R.choice(ALLF)], R.sample(ALLF, 2)])
    specs = []
    while len(specs) < n:
        if specs and R.random() < 0.6:
            j = R.randrange(len(specs))
            s = M.mutate_spec(R, specs[j])
            t = specs[j]
            same = lambda k: s.get(k) == t.get(k)
            s.pop("share", None)
            shape_free = {"multiroot"}
            if (
                R.random() < 0.4
                and same("fam")
                and same("B")
                and same("dt")
                and {k: v for k, v in s["d"].items() if k not in shape_free}
                == {k: v for k, v in t["d"].items() if k not in shape_free}
                and s.get("V") == t.get("V")
                and not s.get("fb")
            ):
                s["share"] = j
                s["ps"], s["sc"] = t["ps"], t["sc"]
                s["sh"] = t.get("sh", 0.0)
        else:
            s = M.gen_spec(R, fams, f32=f32, max_B=max_B, huge=0.1)
            if specs and R.random() < 0.25:
                s2 = copy.deepcopy(R.choice(specs))
                s2.pop("share", None)
                s2["ps"] = R.randrange(1 << 30)
                s = s2
        if "share" not in s and R.random() < 0.15 and s["fam"] in FORBID:
            s["fb"] = [R.randrange(1 << 30), R.choice([0.1, 0.3, 0.6]), -1e3]
            if inf and not s.get("huge") and R.random() < 0.5:
                s["fb"][2] = "-inf"
        s["nl"] = R.random() < nl
        s["rg"] = R.random() < rg
        if lay:
            s["lay"] = R.choice([0, 0, 0, 0, 1, 2])
        specs.append(s)
    return specs


def _history(R, specs, n, slots, among=None, upd=True):
    ops = []
    for _ in range(n):
        i = R.choice(slots)
        x = R.random()
        if x < 0.1:
            ops.append({"op": "new", "s": i})
        elif x < 0.2:
            ops.append({"op": "drop", "s": i})
        elif x < 0.22:
            ops.append({"op": "gc"})
        elif x < 0.23:
            ops.append({"op": "dtype", "to": R.choice(["float32", "float64"])})
        elif x < 0.27 and upd:
            ops += _renewal(R, specs, i, ops)
        elif x < 0.30 and upd:
            ops.append({"op": "upd", "s": i, "ps": R.randrange(1 << 30)})
        elif x < 0.38 and ops and any(o["op"] == "q" for o in ops):
            ops.append(copy.deepcopy(R.choice([o for o in ops if o["op"] == "q"])))
        else:
            ops.append(_query_op(R, specs, i, among=among))
    return ops


def _renewal(R, specs, i, ops):
    """The caller throws parameters away and makes new ones of the same size,
    which then often lie at the same address; the last questions again."""
    last = [copy.deepcopy(o) for o in ops if o["op"] == "q" and o["s"] == i][-2:]
    if not last:
        last = [_query_op(R, specs, i)]
    off = R.random() < 0.5
    for o in last:
        o.pop("f", None)
        if off and not o["a"]["q"].startswith("s_"):
            o["gm"] = "off"
    mid = [{"op": "renew", "s": i, "ps": R.randrange(1 << 30)}]
    return copy.deepcopy(last) + mid + last


def _hold_pull(R, specs, i, h):
    "A differentiable query whose gradient is taken by the caller."
    q = R.choice([x for x in DIFFQ if specs[i]["fam"] in M.SUPPORT[x]])
    op = _query_op(R, specs, i, gm=False, among=[q])
    op["op"], op["h"] = "hold", h
    specs[i]["rg"] = True
    if "o" in op:
        specs[op["o"]]["rg"] = True
    p = {"op": "pull", "h": h, "ws": R.randrange(1 << 30), "kind": R.choice(["grad", "backward"]), "order": R.choice([1, 2])}
    if R.random() < 0.3:
        p["f"] = [R.choice(["oom", "interrupt"]), _pos(R)]
    return [op, p]


def convertible(s):
    return s["fam"] in ("LC", "HMM", "SM", "DEP") and min(M.lens_of(s)) > 1


def _switches(R, n_tasks, gaps, counts=(2, 8, 40)):
    out = []
    for t in range(n_tasks):
        gap = R.choice(gaps)
        step, sw = 0, []
        for _ in range(R.choice(counts)):
            step += 1 + int(R.expovariate(1.0 / gap))
            sw.append([step, R.randrange(n_tasks)])
        out.append(sw)
    return out


@K.configured
def generate(prop, seed):
    R = random.Random("%s/%d" % (prop, seed))
    plan = {"world": "struct", "prop": prop, "seed": seed}
    if prop == "C01":
        long = R.random() < 0.04
        specs = _specs(R, R.randint(8, 20) if long else R.randint(2, 5), inf=True)
        plan["specs"] = specs
        plan["tasks"] = [_history(R, specs, R.randint(50, 120) if long else R.randint(6, 16), list(range(len(specs))))]
        for op in plan["tasks"][0]:
            if op["op"] == "q" and R.random() < 0.03:
                op["gm"] = "inference"
    elif prop == "C02":
        n = R.choice([2, 2, 3, 4])
        specs = _specs(R, R.randint(2, 4))
        among = None
        if R.random() < 0.12:
            # two models compared with each other, both ways round
            specs = _specs(R, 1, fams=["LC", "HMM", "TREE"])
            specs[0].pop("fb", None)
            specs.append(copy.deepcopy(specs[0]))
            specs[1]["ps"] = R.randrange(1 << 30)
            among = ["kl", "cross_entropy", "kl", "cross_entropy", "partition", "entropy"]
        plan["specs"] = specs
        plan["shared"] = True
        tasks = []
        for t in range(n):
            ops = []
            for _ in range(R.randint(2, 5)):
                i = R.randrange(len(specs))
                if R.random() < 0.15:
                    ops.append({"op": "new", "s": i})
                else:
                    ops.append(_query_op(R, specs, i, among=among))
            tasks.append(ops)
        if R.random() < 0.5:
            # the same questions from everybody
            ops0 = tasks[0]
            tasks = [copy.deepcopy(ops0) for _ in range(n)]
            for ops in tasks[1:]:
                if R.random() < 0.3:
                    ops.reverse()
                for op in ops:
                    if "o" in op and R.random() < 0.5:
                        op["s"], op["o"] = op["o"], op["s"]
        plan["switches"] = _switches(R, n, [2, 10, 40, 150])
        if among is None and R.random() < 0.2:
            # lockstep: the same kind of question about alike models, a switch every line or two
            s = _specs(R, 1)[0]
            q = M.gen_query(R, s)["q"]
            plan["specs"] = specs = [copy.deepcopy(s) for _ in range(n)]
            tasks = []
            for t in range(n):
                if not "fb" in s:
                    specs[t]["ps"] = R.randrange(1 << 30)
            for t in range(n):
                tasks.append([_query_op(R, specs, t, among=[q]) for _ in range(R.randint(1, 3))])
            plan["switches"] = _switches(R, n, [0.5, 1, 2], [60, 200, 400])
        plan["tasks"] = tasks
        plan["own"] = R.random() < 0.5  # own objects instead of shared ones
    elif prop == "C03":
        specs = _specs(R, R.randint(1, 3))
        plan["specs"] = specs
        ops = []
        for _ in range(R.randint(2, 5)):
            i = R.randrange(len(specs))
            op = _query_op(R, specs, i)
            op["f"] = [R.choice(["oom", "oom", "interrupt", "memerr"]), _pos(R)]
            ops.append(op)
            nxt = copy.deepcopy(op)
            del nxt["f"]
            if R.random() < 0.2:
                nxt["f"] = [R.choice(["oom", "interrupt"]), _pos(R)]
            if R.random() < 0.8:
                ops.append(nxt)
            for _ in range(R.randint(0, 2)):
                ops.append(_query_op(R, specs, R.randrange(len(specs))))
            if R.random() < 0.15:
                ops.append({"op": "new", "s": i, "f": ["interrupt", R.randint(1, 12)]})
        plan["tasks"] = [ops]
        if R.random() < 0.2:
            plan["tasks"].append(
                [_query_op(R, specs, R.randrange(len(specs))) for _ in range(3)]
            )
            plan["switches"] = _switches(R, 2, [10, 40, 150])
            plan["shared"] = True
    elif prop == "C11":
        fams = [f for f in ALLF if f != "HMM"]
        s = M.gen_spec(R, fams, max_B=4, huge=0.1)
        if s["len"] is None or all(L == s["d"]["N"] for L in s["len"]):
            s["B"] = max(2, s["B"])
            s["d"]["N"] = max(3, s["d"]["N"])
            lo = M.MIN_L[s["fam"]]
            s["len"] = [R.randint(lo, s["d"]["N"] - 1) for _ in range(s["B"])]
            s["len"][R.randrange(s["B"])] = s["d"]["N"]
        s = M.shrink_to_enum(s)
        s["nl"], s["rg"] = False, True
        s2 = copy.deepcopy(s)
        s2["ps"] = R.randrange(1 << 30)
        plan["specs"] = [s, s2]
        ops = []
        for _ in range(R.randint(1, 3)):
            op = _query_op(R, plan["specs"], 0, gm=False)
            if R.random() < 0.3:
                q = R.choice([x for x in DIFFQ if s["fam"] in M.SUPPORT[x]])
                a = M.gen_query(R, s, [q])
                op = {"op": "g", "s": 0, "a": a, "ws": R.randrange(1 << 30)}
                if q in ("kl", "cross_entropy"):
                    op["o"] = 1
            cor = []
            row = R.random() < 0.4 and s["B"] > 1
            for _ in range(R.randint(1, 4)):
                p = 0 if R.random() < 0.4 else _pos(R)
                if row:
                    cor.append([p, "row", R.randrange(s["B"]), R.choice(["nan", "inf", "-inf", "1e30", "-1e4"])])
                else:
                    # overwriting saved inputs with huge values between forward
                    # and backward is outside torch's own contract
                    vals = ["7", "-40", "1e4", "-1e4", "1e30", "-1e30", "mix"] if p == 0 else ["7", "-30", "30", "0.5"]
                    cor.append([p, "pad", R.randrange(1 << 30), R.choice(vals)])
            if not row and any(c[0] for c in cor):
                for c in cor:
                    if c[3] not in ("7", "-30", "30", "0.5"):
                        c[3] = "30"
            if row:
                r0 = cor[0][2]
                for c in cor:
                    c[2] = r0
            op["cor"] = sorted(cor)
            ops.append({"op": "new", "s": 0})
            ops.append(op)
        if any(c[0] and c[1] == "pad" for op in ops for c in op.get("cor", ())):
            # "ordinary" means of the size of the scores
            for x in plan["specs"]:
                x.pop("sh", None)
                x["sc"] = min(x["sc"], 2.0)
        plan["tasks"] = [ops]
    elif prop == "C12":
        specs = _specs(R, R.randint(1, 3), f32=0.15, nl=0.4, rg=1.0)
        for s in specs:
            s["rg"] = True
        plan["specs"] = specs
        ops, nh = [], 0
        for _ in range(R.randint(5, 12)):
            x = R.random()
            i = R.randrange(len(specs))
            s = specs[i]
            if x < 0.4 or nh == 0:
                q = R.choice([x for x in DIFFQ if s["fam"] in M.SUPPORT[x]])
                op = _query_op(R, specs, i, among=[q])
                if q in ("kl", "cross_entropy", "log_prob") or q.startswith("s_"):
                    op.pop("gm", None)
                op["op"], op["h"] = "hold", nh
                nh += 1
                ops.append(op)
            elif x < 0.85:
                op = {
                    "op": "pull",
                    "h": R.randrange(nh),
                    "ws": R.randrange(1 << 30),
                    "kind": R.choice(["grad", "backward"]),
                    "order": R.choice([1, 1, 2]),
                }
                if R.random() < 0.2:
                    op["f"] = ["oom", _pos(R)]
                ops.append(op)
                if R.random() < 0.4:
                    o2 = copy.deepcopy(op)
                    o2.pop("f", None)
                    ops.append(o2)
            elif x < 0.93:
                ops.append(_query_op(R, specs, i))
            elif x < 0.96:
                ops.append({"op": "new", "s": i})
            else:
                ops.append({"op": "gc"})
        plan["tasks"] = [ops]
    elif prop == "C13":
        specs = _specs(R, R.randint(1, 3))
        plan["specs"] = specs
        plan["watch"] = True
        n = R.choice([1, 1, 2])
        tasks = []
        for t in range(n):
            ops = _history(R, specs, R.randint(3, 7), list(range(len(specs))), upd=(n == 1))
            for op in ops:
                if op["op"] == "q" and R.random() < 0.2:
                    op["f"] = [R.choice(["oom", "interrupt"]), _pos(R)]
            for _ in range(R.randint(0, 2)):
                i = R.randrange(len(specs))
                if R.random() < 0.4 and convertible(specs[i]):
                    op = {"op": "conv", "s": i, "es": R.randrange(1 << 30)}
                    ops.insert(R.randint(0, len(ops)), op)
                elif n == 1 and not any(o["op"] == "hold" for o in ops):
                    at = R.randint(0, len(ops))
                    ops[at:at] = _hold_pull(R, specs, i, 0)
            tasks.append(ops)
        plan["tasks"] = tasks
        if n > 1:
            plan["shared"] = True
            plan["switches"] = _switches(R, n, [10, 40, 150])
            for ops in tasks:
                ops[:] = [o for o in ops if o["op"] in ("q", "new", "conv")]
    elif prop == "C14":
        specs = _specs(R, R.randint(1, 3), nl=0.4)
        plan["specs"] = specs
        plan["leak"] = True
        ops = _history(R, specs, R.randint(2, 6), list(range(len(specs))))
        nh = 0
        for op in list(ops):
            if op["op"] != "q":
                continue
            if R.random() < 0.25:
                op["f"] = [R.choice(["oom", "interrupt"]), _pos(R)]
        for _ in range(R.randint(0, 2)):
            i = R.randrange(len(specs))
            ops += _hold_pull(R, specs, i, nh)
            nh += 1
        if R.random() < 0.3:
            i = R.randrange(len(specs))
            if convertible(specs[i]):
                ops.append({"op": "conv", "s": i, "es": R.randrange(1 << 30)})
        plan["tasks"] = [ops]
    elif prop == "C15":
        specs = _specs(R, R.randint(3, 9), max_B=2)
        plan["specs"] = specs
        plan["work"] = True
        probes = []
        for i in R.sample(range(len(specs)), 2):
            qs = [_query_op(R, specs, i) for _ in range(R.randint(1, 4))]
            for q in qs:
                if q["a"]["q"] in DIFFQ and "gm" not in q and R.random() < 0.5:
                    # the caller's backward pass counts as well
                    q["back"] = True
                    specs[i]["rg"] = True
            probes.append({"op": "probe", "s": i, "qs": qs})
        ops = probes + probes
        burst = R.random() < 0.5
        for _ in range(2):
            h = _history(R, specs, R.randint(5, 15) if burst else R.randint(25, 60), list(range(len(specs))))
            h = [op for op in h if op["op"] != "dtype"]
            for op in h:
                if op["op"] == "q" and R.random() < 0.1:
                    op["f"] = [R.choice(["oom", "interrupt"]), _pos(R)]
            if burst:
                # the same few questions over and over
                q = R.choice(R.choice(probes)["qs"])
                h.append({"op": "burst", "s": q["s"], "q": q, "n": R.choice([40, 80, 150]), "new": R.random() < 0.7})
            ops = ops + h + probes
        plan["tasks"] = [copy.deepcopy(ops)]
    else:
        raise KeyError(prop)
    return plan


# --------------------------------------------------------------------------
# execution


class Result:
    def __init__(self):
        self.violation = None  # (cls, detail)
        self.stats = {}
        self.digest = 0
        self.sig = None  # distinctness key, None = trivial


class Held:
    def __init__(self, live, other, a, out, params, oparams, event):
        self.live, self.other, self.a, self.out = live, other, a, out
        self.params, self.oparams, self.event = params, oparams, event


def pad_mask(s):
    """One boolean tensor per parameter: True in the padding."""
    fam, d, lens = s["fam"], s["d"], M.lens_of(s)
    out = []
    for p in M.make_params(s):
        out.append(torch.zeros(p.shape, dtype=torch.bool))
    m = out[0]
    for b, L in enumerate(lens):
        if fam in ("LC", "SM"):
            m[b, L - 1 :] = True
        elif fam == "CFG":
            m[b, L:] = True
        else:
            m[b, L:] = True
            m[b, :, L:] = True
    return out


class World:
    def __init__(self, plan):
        import torch_struct

        self.ts = torch_struct
        self.plan = plan
        self.specs = plan["specs"]
        self.slots = {}
        self.held = {}
        self.ptensors = {}  # spec index -> param tensors (shared)
        self.expect_grad = {}  # id(tensor) -> (tensor, expected grad or None)
        self.watch = []
        self.judged = 0
        self.sigs = []
        self.prop = plan["prop"]
        self.dead = []
        self.work = {}

    # -- bookkeeping ----------------------------------------------------
    def root(self, i):
        s = self.specs[i]
        seen = set()
        while s.get("share") is not None and i not in seen:
            seen.add(i)
            i = s["share"]
            s = self.specs[i]
        return i

    def params_for(self, i):
        r = self.root(i)
        if r not in self.ptensors:
            ps = M.make_params(self.specs[r])
            if self.specs[r].get("rg") or self.specs[i].get("rg"):
                for p in ps:
                    p.requires_grad_(True)
            self.ptensors[r] = ps
            for k, p in enumerate(ps):
                self.watch_add("parameter %d of distribution %d" % (k, i), p)
                self.watch_add("parameter buffer %d of distribution %d" % (k, i), p._base)
        ps = self.ptensors[r]
        if self.specs[i].get("rg"):
            for p in ps:
                p.requires_grad_(True)
        return ps

    def watch_add(self, label, t):
        if not self.plan.get("watch") or t is None:
            return
        if isinstance(t, (tuple, list)):
            for x in t:
                self.watch_add(label, x)
            return
        v = t.detach().numpy()
        self.watch.append((label, v, v.tobytes()))
        if len(self.watch) > 60:
            self.watch.pop(20)

    def watch_check(self, where):
        for label, v, b in self.watch:
            if v.tobytes() != b:
                raise Violation("modified", "%s changed %s" % (label, where))

    def monitor(self, t, code, line):
        self.watch_check("while %s runs (line %d)" % (code.co_qualname, line))

    # -- library calls ---------------------------------------------------
    def call(self, t, op, fn):
        """Run fn inside the simulation; returns (kind, value): 'ok', 'injected'."""
        k = self.k
        t.op_lines = t.op_disp = 0
        t.fault = None
        if op.get("f"):
            kind, pos = op["f"]
            t.fault = K.Fault(kind, self.absolute(op, kind, pos))
        before = K.ambient()
        mode = K.SimMode(k, t) if t.fault is not None and t.fault.kind == "oom" else None
        try:
            t.in_op = True
            if mode is not None:
                with mode:
                    out = fn()
            else:
                out = fn()
            if self.plan["prop"] == "C03" and t.fault is not None and t.fault.fired:
                raise Violation("swallowed", "%s of %s returned although %s struck inside it" % (op_name(op), self.fam(op), t.fault.kind))
            res = ("ok", out)
        except Violation:
            raise
        except (K.StepCap, K.Deadlock):
            raise
        except BaseException as e:
            if t.fault is not None and t.fault.fired and K.is_injected(e):
                # the traceback would keep the library's frames alive
                e.__traceback__ = None
                res = ("injected", None)
            elif isinstance(e, K.HarnessError):
                raise
            else:
                raise Violation(
                    "error:%s" % op_name(op),
                    "%s of %s raised %s: %s"
                    % (op_name(op), self.fam(op), type(e).__name__, str(e)[:300]),
                )
        finally:
            t.in_op = False
            if t.fault is not None and not t.fault.fired:
                self.k.count("fault not reached")
            t.fault = None
            t.actions = []
        K.ambient_check(before, op_name(op))
        if self.plan.get("watch"):
            self.watch_check("after %s" % op_name(op))
        return res

    def absolute(self, op, kind, pos):
        if pos > 0:
            return pos
        n = self.measure(op)[1 if kind == "oom" else 0]
        return 1 + (-pos - 1) * max(n, 1) // 1000

    def measure(self, op):
        """(lines, tensor operations) of the call, on a twin of the object."""
        if op["op"] == "new":
            return (8, 8)
        i = op["s"]
        tw = World(dict(self.plan, tasks=[[]], watch=False, leak=False, switches=None, shared=False))
        rng = torch.get_rng_state()
        active, K.ACTIVE = K.ACTIVE, None
        try:
            tw.k = K.Kernel()

            def body(t):
                lv = tw.live(t, i, i)
                other = tw.live(t, op["o"], op["o"]) if "o" in op else None
                a = op["a"]
                event = None
                if a["q"] in M.EVENT_Q:
                    event = M.make_event(tw.specs[i], a["es"], a["n"])
                t.op_lines = t.op_disp = 0
                if op["op"] == "pull":
                    out = M.ask(tw.ts, lv, a, other, event)
                    h = Held(lv, other, a, out, lv.params, other.params if other else [], event)
                    fn = lambda: tw.differentiate(h, op["ws"], op["order"], "grad", tw.uniq(h))
                else:
                    fn = lambda: M.ask(tw.ts, lv, a, other, event)
                t.in_op = True
                with K.SimMode(tw.k, t):
                    fn()
                t.in_op = False
                tw.n = (t.op_lines, t.op_disp)

            tw.k.add(body)
            tw.k.run()
            return tw.n
        except Exception:
            return (60, 60)
        finally:
            K.ACTIVE = active
            torch.set_rng_state(rng)

    def fam(self, op):
        return M.CLS[self.specs[op["s"]]["fam"]] if "s" in op else ""

    def live(self, t, i, key, op=None):
        """The distribution in slot `key`, building it if needed."""
        if key in self.slots:
            return self.slots[key]
        s = self.specs[i]
        lv = M.Live(s, self.params_for(i))
        for x in (lv.lengths, lv.obs):
            self.watch_add("lengths/observations of distribution %d" % i, x)
        ps = [p * 1 for p in lv.params] if s.get("nl") else None
        if ps:
            for p in ps:
                self.watch_add("potentials of distribution %d" % i, p)
        o = {"op": "new", "s": i}
        if op is not None and "f" in op:
            o["f"] = op["f"]
        kind, _ = self.call(t, o, lambda: lv.build(self.ts, ps))
        if kind != "ok":
            return None
        lv.used = ps or lv.params
        self.slots[key] = lv
        if self.plan.get("leak"):
            self.weak_add(lv)
        return lv

    def weak_add(self, lv):
        for p in list(lv.params) + list(lv.used):
            self.dead.append(("parameter", weakref.ref(p)))
        self.dead.append(("distribution", weakref.ref(lv.dist)))

    def weak_out(self, out):
        if isinstance(out, (tuple, list)):
            for x in out:
                self.weak_out(x)
        elif isinstance(out, torch.Tensor):
            self.dead.append(("result", weakref.ref(out)))

    def key(self, t, i):
        return (t.idx, i) if self.plan.get("own") else i

    def grads_check(self, op):
        for p, want in list(self.expect_grad.values()):
            got = p.grad
            if want is None:
                if got is not None:
                    raise Violation("grad-leak", "%s left a gradient on the caller's tensor" % op_name(op))
            else:
                if got is None:
                    raise Violation("grad-leak", "%s removed the caller's gradient" % op_name(op))
                msg = M.close(got, want, 1e-12)
                if msg:
                    raise Violation("grad-leak", "caller's gradient after %s: %s" % (op_name(op), msg))

    def track(self, i):
        for p in self.params_for(i):
            self.expect_grad.setdefault(id(p), (p, None))

    # -- operations -------------------------------------------------------
    def step(self, t, op):
        kind = op["op"]
        k = self.k
        k.count("op:" + kind)
        if kind == "gc":
            gc.collect()
            return
        if kind == "dtype":
            if len(self.k.tasks) == 1:
                torch.set_default_dtype(getattr(torch, op["to"]))
            return
        if kind in ("new", "drop"):
            i = op["s"]
            self.slots.pop(self.key(t, i), None)
            if kind == "new":
                self.live(t, i, self.key(t, i), op)
            return
        if kind in ("upd", "renew"):
            self.update(op, kind == "renew")
            return
        if kind == "probe":
            self.probe(t, op)
            return
        if kind == "burst":
            self.burst(t, op)
            return
        if kind == "conv":
            self.convert(t, op)
            return
        if kind in ("q", "hold", "g"):
            i = op["s"]
            lv = self.live(t, i, self.key(t, i))
            self.track(i)
            other = None
            if "o" in op:
                other = self.live(t, op["o"], self.key(t, op["o"]))
                self.track(op["o"])
            event = None
            if op["a"]["q"] in M.EVENT_Q:
                event = M.make_event(self.specs[i], op["a"]["es"], op["a"]["n"])
                self.watch_add("event", event)
            a = op["a"]
            if kind == "g":
                self.gradient_now(t, op, lv, other, event)
                return

            rows = None
            if "cor" in op:
                rows = self.corrupt(t, op, lv)

            try:
                with mode(op):
                    res, out = self.call(t, op, lambda: M.ask(self.ts, lv, a, other, event))
            except Violation as v:
                if op.get("gm") == "inference" and "grad" in v.detail:
                    # torch records nothing in this mode, so marginals cannot be had
                    k.count("refused (inference mode)")
                    return
                if rows is None or not v.cls.startswith("error:"):
                    raise
                if op["cor"][0][1] == "pad" or not self.domain_error(v):
                    raise
                k.count("refused (error)")
                self.restore(lv)
                return
            if rows is not None:
                self.restore(lv)
            self.grads_check(op)
            if res == "ok":
                k.note(M.digest(out))
                if "work" in self.plan:
                    return
                self.judged += 1
                M.judge(lv, a, out, other, event, rows=rows)
                self.watch_add("result of an earlier %s" % a["q"], out)
                if self.plan.get("leak"):
                    self.weak_out(out)
                if kind == "hold":
                    h = Held(lv, other, a, out, lv.params, other.params if other else [], event)
                    h.si, h.oi = i, op.get("o")
                    self.held[op["h"]] = h
            return
        if kind == "pull":
            if op["h"] in self.held:
                self.pull(t, op, self.held[op["h"]])
            return
        raise KeyError(kind)

    def convert(self, t, op):
        """Event to compact form and back; what it returns is not judged."""
        lv = self.live(t, op["s"], self.key(t, op["s"]))
        event = M.make_event(lv.s, op["es"], 1)[0]
        self.watch_add("event", event)
        res, out = self.call(t, op, lambda: lv.dist.from_event(event))
        if res != "ok":
            return
        seq, extra = out
        self.watch_add("compact form", seq)
        res, back = self.call(t, op, lambda: lv.dist.to_event(seq, extra, lv.lengths))
        if res == "ok":
            self.watch_add("converted event", back)
            if self.plan.get("leak"):
                self.weak_out([seq, back])

    def probe(self, t, op):
        """Ask a fresh distribution a fixed list of questions and compare the work
        (source lines, tensor operations) with that of the first two times."""
        i = op["s"]
        self.slots.pop(i, None)
        lv = self.live(t, i, i)
        for n, q in enumerate(op["qs"]):
            a = q["a"]
            other = self.live(t, i, i) if "o" in q else None
            event = M.make_event(self.specs[i], a["es"], a["n"]) if a["q"] in M.EVENT_Q else None
            self.put(t, q, lv, other, event)
            seen = self.work.setdefault((i, n), [])
            now = (t.op_lines, t.op_disp)
            self.k.note(str(now).encode())
            seen.append(now)
            if len(seen) > 2:
                self.judged += 1
                for x, what in ((0, "source lines"), (1, "tensor operations")):
                    base = max(seen[0][x], seen[1][x])
                    if now[x] > base * 1.1 + 30:
                        raise Violation(
                            "work-grows",
                            "%s of %s took %d %s, %d the first times" % (a["q"], M.CLS[lv.s["fam"]], now[x], what, base),
                        )
        self.slots.pop(i, None)

    def put(self, t, q, lv, other, event):
        """One question to a distribution, with the caller's backward pass."""

        def fn():
            with K.SimMode(self.k, t):
                out = M.ask(self.ts, lv, q["a"], other, event)
                outs = [x for x in (out if isinstance(out, tuple) else (out,)) if x.requires_grad]
                if q.get("back") and outs:
                    torch.autograd.grad(sum(x.sum() for x in outs), lv.params, retain_graph=True, allow_unused=True)

        with torch.set_grad_enabled(q.get("gm") != "off"):
            self.call(t, q, fn)

    def burst(self, t, op):
        i, q = op["s"], op["q"]
        a = q["a"]
        for _ in range(op["n"]):
            if op["new"]:
                self.slots.pop(i, None)
            lv = self.live(t, i, i)
            other = lv if "o" in q else None
            event = M.make_event(self.specs[i], a["es"], a["n"]) if a["q"] in M.EVENT_Q else None
            self.put(t, q, lv, other, event)

    def domain_error(self, v):
        "Rows that are not numbers may be refused."
        return any(
            w in v.detail
            for w in ("probability", "multinomial", "linalg", "singular", "nan", "inf")
        )

    def update(self, op, renew):
        i = op["s"]
        r = self.root(i)
        new = dict(self.specs[r], ps=op["ps"])
        if r not in self.ptensors:
            return
        # everything made from the old values is gone
        ids = {id(p) for p in self.ptensors[r]}
        for key in list(self.slots):
            if any(id(p) in ids for p in self.slots[key].params):
                del self.slots[key]
        for h in list(self.held):
            x = self.held[h]
            if any(id(p) in ids for p in list(x.params) + list(x.oparams)):
                del self.held[h]
        if renew:
            rg = self.ptensors[r][0].requires_grad
            for x in ids:
                self.expect_grad.pop(x, None)
            self.watch = [w for w in self.watch if not w[0].startswith("parameter")]
            x = None
            del self.ptensors[r]
            self.ptensors[r] = [p.requires_grad_(rg) for p in M.make_params(new)]
        else:
            vals = M.make_params(new)
            with torch.no_grad():
                for p, v in zip(self.ptensors[r], vals):
                    p.copy_(v)
        self.watch = [w for w in self.watch if not w[0].startswith("parameter")]
        for rr, ps in self.ptensors.items():
            for p in ps:
                self.watch_add("parameter of distribution %d" % rr, p)
                self.watch_add("parameter buffer of distribution %d" % rr, p._base)

    # corruption ------------------------------------------------------------
    def corrupt(self, t, op, lv):
        s = lv.s
        self.clean = [p.detach().clone() for p in lv.params]
        views = [p.detach().numpy() for p in lv.params]
        rows = list(range(s["B"]))
        masks = [m.numpy() for m in pad_mask(s)]
        acts = []
        n = self.measure(op)[0] if any(c[0] < 0 for c in op["cor"]) else 0
        for pos, kind, arg, val in op["cor"]:
            if pos < 0:
                pos = 1 + (-pos - 1) * max(n, 1) // 1000
            if kind == "row" and arg in rows:
                rows.remove(arg)

            def act(kind=kind, arg=arg, val=val):
                self.k.count("corruption:" + kind)
                for v, m in zip(views, masks):
                    if kind == "row":
                        v[arg] = float(val)
                    elif val == "mix":
                        R = random.Random(arg)
                        n = int(m.sum())
                        if n:
                            v[m] = [R.choice([-1e30, -1e4, -3, 0, 5, 1e4, 1e30]) for _ in range(n)]
                    else:
                        v[m] = float(val)

            if pos == 0:
                act()
            else:
                acts.append((pos, act))
        acts.sort(key=lambda x: x[0])
        t.actions = acts
        return rows

    def restore(self, lv):
        for p, c in zip(lv.params, self.clean):
            p.detach().numpy()[...] = c.numpy()

    # gradients --------------------------------------------------------------
    def ref_functional(self, h, leaf, oleaf):
        r = h.live.ref(leaf)
        B = h.live.s["B"]
        q = M.VALUE_OF.get(h.a["q"], h.a["q"])
        if q == "partition":
            return r.partition()
        if q == "max":
            return r.max()
        if q == "entropy":
            return r.entropy()
        if q == "marginals":
            return r.marginals_flat()
        if q == "kmax":
            m = self.kmax_used(h)
            return torch.stack([r.topk_scores(b, m) for b in range(B)], 1)
        if q == "log_prob":
            return M.log_probs(r, h.event, h.a)
        return getattr(r, q)(h.other.ref(oleaf))

    def lib_functional(self, h):
        x = h.out
        B = h.live.s["B"]
        if h.a["q"] in ("marginals", "s_marginals"):
            return M.to_flat(h.live.s["fam"], x, B)
        if h.a["q"] == "kmax":
            return x[: self.kmax_used(h)]
        return x

    def kmax_used(self, h):
        "How many of the k best exist in every row."
        s = h.live.s
        return min(M.n_best(s, L, h.a["k"]) for L in M.lens_of(s))

    def ties(self, h):
        "Scores so close that the best structure is not well separated."
        r = h.live.ref()
        for b in range(h.live.s["B"]):
            sc = r.topk_scores(b, 10).detach()
            if len(sc) > 1 and bool(((sc[:-1] - sc[1:]) < 1e-3).any()):
                return True
        return False

    def weights(self, ws, shape, dt):
        g = torch.Generator().manual_seed(ws)
        return torch.randn(tuple(shape), generator=g, dtype=D).to(dt)

    def uniq(self, h):
        ps, seen = [], set()
        for p in list(h.params) + list(h.oparams):
            if id(p) not in seen:
                seen.add(id(p))
                ps.append(p)
        return ps

    def expected(self, h, ws, order, rows=None):
        ps = self.uniq(h)
        leafs = {id(p): p.detach().to(D).requires_grad_(True) for p in ps}
        leaf = [leafs[id(p)] for p in h.params]
        oleaf = [leafs[id(p)] for p in h.oparams]
        out = self.ref_functional(h, leaf, oleaf)
        w = self.weights(ws, out.shape, D)
        if rows is not None:
            w = self.row_weights(h, w, rows)
        loss = (w * out).sum()
        xs = [leafs[id(p)] for p in ps]
        g = torch.autograd.grad(loss, xs, create_graph=order == 2, allow_unused=True)
        g = [torch.zeros_like(x) if y is None else y for x, y in zip(xs, g)]
        if order == 2:
            l2 = sum(
                (self.weights(ws + 1 + j, y.shape, D) * y).sum() for j, y in enumerate(g)
            )
            if not l2.requires_grad:
                g = [torch.zeros_like(x) for x in xs]
            else:
                g2 = torch.autograd.grad(l2, xs, allow_unused=True)
                g = [torch.zeros_like(x) if y is None else y for x, y in zip(xs, g2)]
        return ps, [y.detach() for y in g]

    def row_weights(self, h, w, rows):
        dim = 1 if h.a["q"] in ("kmax", "log_prob") else 0
        m = torch.zeros(w.shape[dim], dtype=w.dtype)
        m[rows] = 1
        shape = [1] * w.dim()
        shape[dim] = -1
        return w * m.view(shape)

    def differentiate(self, h, ws, order, kind, ps):
        out = self.lib_functional(h)
        w = self.weights(ws, out.shape, out.dtype)
        loss = (w * out).sum()
        if order == 2:
            g = torch.autograd.grad(loss, ps, create_graph=True, allow_unused=True)
            loss = sum(
                (self.weights(ws + 1 + j, y.shape, y.dtype) * y).sum()
                for j, y in enumerate(g)
                if y is not None
            )
            if not isinstance(loss, torch.Tensor) or not loss.requires_grad:
                return [torch.zeros_like(p) for p in ps]
        if kind == "backward":
            loss.backward(retain_graph=True)
            return None
        g = torch.autograd.grad(loss, ps, retain_graph=True, allow_unused=True)
        return [torch.zeros_like(p) if y is None else y for p, y in zip(ps, g)]

    def gtol(self, h):
        t = M.tol_of(h.live.s)
        return t * 20 if h.live.s["dt"] == "f32" else t * 10

    def pull(self, t, op, h):
        q = h.a["q"]
        order = op["order"] if q in ORDER2 else 1
        if h.live.s["fam"] == "NP":
            order = 1
        if q in ("max", "s_max", "kmax") and self.ties(h):
            self.k.count("pull skipped (ties)")
            return
        ps, want = self.expected(h, op["ws"], order)
        kind = op["kind"]
        if kind == "backward" and order == 2:
            kind = "grad"
        before = {id(p): self.expect_grad.get(id(p), (p, None))[1] for p in ps}
        o = {"op": "pull", "a": h.a, "s": h.si, "ws": op["ws"], "order": order}
        if h.oi is not None:
            o["o"] = h.oi
        if "f" in op:
            o["f"] = op["f"]
        res, got = self.call(t, o, lambda: self.differentiate(h, op["ws"], order, kind, ps))
        tol = self.gtol(h) * (1 + max([float(w.abs().max()) for w in want if w.numel()] + [0]))
        if kind == "backward":
            for p, w in zip(ps, want):
                old = before[id(p)]
                new = w if old is None else old + w
                if res == "ok":
                    if p.grad is None:
                        if bool((w.abs() > tol).any()):
                            raise Violation("wrong-gradient:" + q, "no gradient arrived")
                        continue
                    msg = M.close(p.grad, new, tol)
                    if msg:
                        raise Violation("wrong-gradient:" + q, "backward of %s of %s: %s" % (q, M.CLS[h.live.s["fam"]], msg))
                    self.expect_grad[id(p)] = (p, p.grad.clone())
                else:
                    # each leaf got all of it or nothing
                    cand = [old] + [new]
                    ok = False
                    for c in cand:
                        if c is None:
                            ok = ok or p.grad is None
                        elif p.grad is not None and M.close(p.grad, c, tol) is None:
                            ok = True
                            self.expect_grad[id(p)] = (p, p.grad.clone())
                            break
                    if not ok:
                        raise Violation("wrong-gradient:" + q, "a failed backward left part of a gradient")
            self.judged += 1
            return
        self.grads_check(op)
        if res != "ok":
            return
        self.judged += 1
        for g, w in zip(got, want):
            self.k.note(M.digest(g))
            msg = M.close(g, w, tol)
            if msg:
                raise Violation(
                    "wrong-gradient:" + q,
                    "order-%d gradient of %s of %s: %s" % (order, q, M.CLS[h.live.s["fam"]], msg),
                )

    def gradient_now(self, t, op, lv, other, event):
        """Query and differentiate while buffers are being corrupted."""
        h = Held(lv, other, op["a"], None, lv.params, other.params if other else [], event)
        q = op["a"]["q"]
        if q in ("max", "s_max", "kmax") and self.ties(h):
            return
        ref_rows = list(range(lv.s["B"]))
        ps = self.uniq(h)
        for c in op.get("cor", ()):
            if c[1] == "row" and c[2] in ref_rows:
                ref_rows.remove(c[2])
        _, want = self.expected(h, op["ws"], 1, ref_rows)
        self.corrupt(t, op, lv)

        def fn():
            h.out = M.ask(self.ts, lv, op["a"], other, event)
            out = self.lib_functional_c(h, want)
            w = self.weights(op["ws"], out.shape, out.dtype)
            w = self.row_weights(h, w, ref_rows)
            loss = torch.where(w == 0, torch.zeros_like(out), w * out).sum()
            return torch.autograd.grad(loss, ps, allow_unused=True)

        try:
            res, got = self.call(t, op, fn)
        except Violation as v:
            if op["cor"][0][1] == "pad" or not self.domain_error(v):
                raise
            self.k.count("refused (error)")
            return
        finally:
            self.restore(lv)
        self.judged += 1
        tol = self.gtol(h) * (1 + max([float(w.abs().max()) for w in want if w.numel()] + [0]))
        for p, g, w in zip(ps, got, want):
            g = torch.zeros_like(p) if g is None else g
            if lv.s["fam"] != "HMM":
                g, w = g[ref_rows], w[ref_rows]
            msg = M.close(g, w, tol)
            if msg:
                raise Violation("wrong-gradient:" + q, "gradient of %s of %s under corruption elsewhere: %s" % (q, M.CLS[lv.s["fam"]], msg))

    def lib_functional_c(self, h, want):
        if h.a["q"] == "kmax":
            return h.out[: self.kmax_used(h)]
        return self.lib_functional(h)

    # -- run -----------------------------------------------------------------
    def run_task(self, ops):
        def fn(t):
            for op in ops:
                self.step(t, op)

        return fn

    def reset(self):
        self.slots, self.held, self.ptensors = {}, {}, {}
        self.expect_grad = {}
        self.watch = []

    def once(self):
        plan = self.plan
        torch.manual_seed(plan["seed"] & 0x7FFFFFFF)
        self.k = K.Kernel(monitor=self.monitor if plan.get("watch") else None)
        sw = plan.get("switches") or [[] for _ in plan["tasks"]]
        if plan.get("shared") and not plan.get("own"):
            # shared objects exist before the callers start
            k0, self.k = self.k, K.Kernel()
            boot = self.k.add(None)
            for i in range(len(self.specs)):
                self.live(boot, i, i)
                self.track(i)
            k0.fired.update(self.k.fired)
            self.k = k0
        for ti, ops in enumerate(plan["tasks"]):
            self.k.add(self.run_task(ops), sw[ti] if ti < len(sw) else [])
        try:
            self.k.run()
        except K.StepCap:
            raise Violation("no-termination", "a call is still running after %d lines, at %s" % (self.k.step_cap, self.k.where))
        except K.Deadlock:
            raise Violation("deadlock", "every caller waits for a lock")
        self.grads_check({"op": "end"})

    def execute(self):
        res = Result()
        try:
            if self.plan.get("leak"):
                self.execute_leak()
            else:
                self.once()
        except Violation as v:
            res.violation = (v.cls, v.detail)
        k = self.k
        res.stats = dict(k.fired)
        res.stats["steps"] = k.total
        res.stats["judged"] = self.judged
        res.digest = k.hash
        res.sig = self.signature()
        self.reset()
        return res

    def signature(self):
        k, p = self.k, self.plan
        if self.judged == 0:
            return None
        fired = sum(v for n, v in k.fired.items() if n.startswith(("fault:", "corruption")))
        if p["prop"] == "C02" and not k.n_switches:
            return None
        if p["prop"] in ("C03", "C11") and not fired:
            return None
        return (k.hash ^ (k.switch_hash << 1)) & 0xFFFFFFFFFFFFFFF

    def execute_leak(self):
        counts = []
        for rep in range(3):
            self.dead = []
            self.once()
            stats = self.k.fired
            self.reset()
            for t in self.k.tasks:
                t.fn = None
                t.error = None
            gc.collect()
            if any(n.endswith("in backward") for n in stats):
                # torch itself leaks the graph when an operator fails in the
                # middle of a backward pass over in-place slices
                self.k.count("no leak verdict (torch)")
                return
            alive = sorted({n for n, w in self.dead if w() is not None})
            if alive:
                raise Violation("leak", "still alive after everything was dropped: %s" % ", ".join(alive))
            counts.append(sum(1 for o in gc.get_objects() if type(o) is torch.Tensor))
        self.k.fired = stats
        if counts[2] > counts[1]:
            raise Violation("leak-growth", "live tensors grow with every repetition: %s" % counts)


def op_name(op):
    return op["a"]["q"] if "a" in op else op["op"]


def execute(plan):
    return K.configuration(plan, World(plan).execute)


# --------------------------------------------------------------------------
# minimisation


def _with(plan, f):
    p = copy.deepcopy(plan)
    f(p)
    return p


def lists(plan):
    """(get, set) pairs for every list that may be shortened."""
    out = []
    for ti in range(len(plan["tasks"])):

        def get(p, ti=ti):
            return p["tasks"][ti]

        def put(p, sub, ti=ti):
            return _with(p, lambda q: q["tasks"].__setitem__(ti, copy.deepcopy(sub)))

        out.append((get, put))
    for ti in range(len(plan.get("switches") or ())):

        def get(p, ti=ti):
            return p["switches"][ti]

        def put(p, sub, ti=ti):
            return _with(p, lambda q: q["switches"].__setitem__(ti, copy.deepcopy(sub)))

        out.append((get, put))
    return out


@K.plainer
def simpler(plan):
    """Candidate plans, each one step simpler."""
    for ti, ops in enumerate(plan["tasks"]):
        for oi, op in enumerate(ops):
            if "f" in op:
                yield _with(plan, lambda p: p["tasks"][ti][oi].pop("f"))
            if "gm" in op:
                yield _with(plan, lambda p: p["tasks"][ti][oi].pop("gm"))
            if op["op"] == "burst" and op["n"] > 5:
                yield _with(plan, lambda p: p["tasks"][ti][oi].update(n=op["n"] // 2))
            if len(op.get("cor", ())) > 1:
                for ci in range(len(op["cor"])):
                    yield _with(plan, lambda p: p["tasks"][ti][oi]["cor"].pop(ci))
            if op.get("a", {}).get("n", 1) > 1:
                yield _with(plan, lambda p: p["tasks"][ti][oi]["a"].update(n=op["a"]["n"] - 1))
            for key in ("ev", "et"):
                if key in op.get("a", {}):
                    yield _with(plan, lambda p: p["tasks"][ti][oi]["a"].pop(key))
            if op.get("a", {}).get("k", 1) > 1:
                yield _with(plan, lambda p: p["tasks"][ti][oi]["a"].update(k=op["a"]["k"] - 1))
    used = {op.get("s") for ops in plan["tasks"] for op in ops}
    used |= {op.get("o") for ops in plan["tasks"] for op in ops}
    for si, s in enumerate(plan["specs"]):
        if si not in used:
            continue

        def upd(**kw):
            def f(p):
                p["specs"][si].update(kw)

            return _with(plan, f)

        if s.get("nl"):
            yield upd(nl=False)
        if s.get("lay"):
            yield upd(lay=0)
        if s["dt"] == "f32":
            yield upd(dt="f64")
        if s.get("fb"):
            yield upd(fb=None)
        if s.get("sh"):
            yield upd(sh=0.0)
        if s["sc"] != 1.0:
            yield upd(sc=1.0)
        if s["len"] is not None and all(L == s["d"]["N"] for L in s["len"]):
            yield upd(len=None)
    if all("B" in s for s in plan["specs"]):
        m = max(s["B"] for s in plan["specs"])
        if m > 1:

            def smallB(p):
                for s in p["specs"]:
                    if s["B"] == m:
                        s["B"] -= 1
                        if s["len"] is not None:
                            s["len"] = sorted(s["len"], reverse=True)[: s["B"]]

            yield _with(plan, smallB)
        n = max(s["d"]["N"] for s in plan["specs"])
        if n > 2:

            def smallN(p):
                for s in p["specs"]:
                    if s["d"]["N"] == n:
                        s["d"]["N"] -= 1
                        if s["len"] is not None:
                            s["len"] = [min(L, n - 1) for L in s["len"]]

            yield _with(plan, smallN)
