"""Repeatability of random results: the same calls from the same torch generator
state, executed again in a different environment - other Python and NumPy
generator states, another clock, another history, used instead of fresh objects,
other callers asking deterministic questions in between, or another process with
another hash seed."""
import copy
import gc
import json
import os
import random
import subprocess
import sys
import time

import torch

from . import ar
from . import kernel as K
from . import models as M
from .kernel import Violation
from .world import Result, _switches, _with

RAND = ["sample", "gumbel", "s_sample"]
DET = [q for q in M.SUPPORT if q not in M.RANDOM_Q and q not in ("kl", "cross_entropy", "log_prob", "conv")]
FAMS = ["LC", "HMM", "SM", "DEP", "DEPL", "TREE"]


def _random_op(R, specs, nd, models, dists):
    if nd and R.random() < 0.35:
        return {"op": "ar", "a": ar.gen_op(R, models, dists, ["sample", "swor", "temp"], gm=0.1)}
    i = R.randrange(len(specs))
    op = {"op": "st", "s": i, "a": M.gen_query(R, specs[i], RAND)}
    return op


def _det_op(R, specs, models, dists):
    if R.random() < 0.25:
        return {"op": "ar", "a": ar.gen_op(R, models, dists, ["greedy", "beam", "bmax", "logp", "slogp"], gm=0)}
    i = R.randrange(len(specs))
    a = M.gen_query(R, specs[i], DET)
    return {"op": "st", "s": i, "a": a}


def generate(prop, seed):
    R = random.Random("rng/%s/%d" % (prop, seed))
    if seed % 100 == 7:
        return {
            "world": "rng",
            "prop": prop,
            "seed": seed,
            "kind": "process",
            "hs": R.randrange(1, 1 << 30),
            "subs": [_one(R, prop, seed) for _ in range(40)],
        }
    return _one(R, prop, seed)


def _one(R, prop, seed):
    plan = {"world": "rng", "prop": prop, "seed": seed, "kind": "again", "ts": R.randrange(1 << 30)}
    specs = []
    for _ in range(R.randint(1, 3)):
        specs.append(M.mutate_spec(R, specs[0]) if specs and R.random() < 0.5 else M.gen_spec(R, FAMS, f32=0.3, huge=0.1))
    models = [ar.gen_model(R, soft=R.random() < 0.3)]
    dists = [ar.gen_dist(R, models) for _ in range(2)]
    for o in specs:
        o["rg"] = R.random() < 0.5
    ro = lambda: _random_op(R, specs, True, models, dists)
    ops = [ro() for _ in range(R.randint(1, 5))]
    if R.random() < 0.3:
        ops.append(copy.deepcopy(R.choice(ops)))
    for o in ops:
        o["a"].pop("pol", None)
        o["a"].pop("mf", None)
    hist = []
    for _ in range(R.randint(0, 4) if R.random() < 0.95 else R.randint(10, 30)):
        o = ro() if R.random() < 0.6 else _det_op(R, specs, models, dists)
        o["a"].pop("pol", None)
        if R.random() < 0.3:
            o["f"] = [R.choice(["oom", "interrupt"]), R.randint(1, R.choice([10, 60, 300]))]
        hist.append(o)
    between = [
        [_det_op(R, specs, models, dists) for _ in range(R.choice([0, 0, 1, 2]))] for _ in ops
    ]
    plan.update(
        specs=specs,
        models=models,
        dists=dists,
        ops=ops,
        hist=hist,
        between=between,
        env=R.randrange(1 << 30),
        fresh=R.random() < 0.5,
        shift=R.choice([0.0, 1e3, 1e8]),
    )
    if R.random() < 0.25:
        plan["other"] = [_det_op(R, specs, models, dists) for _ in range(R.randint(1, 4))]
        plan["switches"] = _switches(R, 2, [5, 20, 80])
    return plan


class Clock:
    "Every clock of the time module, shifted."

    NAMES = ("time", "monotonic", "perf_counter", "process_time", "time_ns", "monotonic_ns", "perf_counter_ns")

    def __init__(self, by):
        self.by = by

    def __enter__(self):
        self.real = {n: getattr(time, n) for n in self.NAMES}
        for n, f in self.real.items():
            d = int(self.by * 1e9) if n.endswith("_ns") else self.by
            setattr(time, n, (lambda f=f, d=d: f() + d))

    def __exit__(self, *a):
        for n, f in self.real.items():
            setattr(time, n, f)


class Sim:
    def __init__(self, plan):
        import torch_struct

        self.ts = torch_struct
        self.plan = plan
        self.judged = 0

    def env(self, seed):
        import numpy

        random.seed(seed)
        numpy.random.seed(seed & 0xFFFFFFFF)

    def objects(self):
        lives = []
        for s in self.plan["specs"]:
            lv = M.Live(s)
            if s.get("rg"):
                for p in lv.params:
                    p.requires_grad_(True)
            lv.build(self.ts)
            lives.append(lv)
        sub = ar.Sim(dict(self.plan, kind="ops"))
        sub.k, sub.dists, sub.stubs = self.k, {}, {}
        for i in range(len(self.plan["dists"])):
            sub.dist(i)
        return lives, sub

    def run(self, t, obj, op):
        """('ok', value) | ('injected', None); violations propagate"""
        lives, sub = obj
        self.k.count("call:" + (op["a"].get("q") or op["a"]["op"]))
        if op["op"] == "ar":
            a = dict(op["a"])
            if "f" in op:
                a["f"] = op["f"]
            dd, _ = sub.dist(a["d"])
            k = a["op"]
            ev = None
            if k in ("logp", "slogp"):
                d = self.plan["dists"][a["d"]]
                C = self.plan["models"][d["m"]]["C"]
                R = random.Random(a["es"])
                ev = torch.tensor([[[R.randrange(C) for _ in range(d["N"])] for _ in range(d["B"])] for _ in range(a["n"])])
                if k == "logp":
                    ev = torch.nn.functional.one_hot(ev, C)
            fn = {
                "greedy": lambda: dd.greedy_max(),
                "beam": lambda: dd.beam_topk(a["k"]),
                "bmax": lambda: dd._beam_max(a["k"]),
                "temp": lambda: dd.greedy_tempmax(a["alpha"]),
                "sample": lambda: dd.sample((a["n"],)),
                "swor": lambda: dd.sample_without_replacement((a["k"],)),
                "logp": lambda: dd.log_prob(ev),
                "slogp": lambda: dd.log_prob(ev, sparse=True),
            }[k]
            st, out, _ = sub.call(t, a, fn)
            return st, out
        lv = lives[op["s"]]
        t.op_lines = t.op_disp = 0
        t.fault = K.Fault(*op["f"]) if "f" in op else None
        try:
            t.in_op = True
            if t.fault is not None:
                with K.SimMode(self.k, t):
                    return "ok", M.ask(self.ts, lv, op["a"])
            return "ok", M.ask(self.ts, lv, op["a"])
        except (Violation, K.StepCap, K.Deadlock):
            raise
        except BaseException as e:
            if t.fault is not None and t.fault.fired and K.is_injected(e):
                return "injected", None
            if isinstance(e, K.HarnessError):
                raise
            raise Violation("error:" + op["a"]["q"], "%s raised %s: %s" % (op["a"]["q"], type(e).__name__, str(e)[:300]))
        finally:
            t.in_op = False
            t.fault = None

    def state(self):
        return torch.get_rng_state().numpy().tobytes()

    def first(self, t):
        p = self.plan
        self.env(1)
        obj = self.objects()
        torch.manual_seed(p["ts"])
        self.want = []
        for op in p["ops"]:
            _, out = self.run(t, obj, op)
            self.want.append((M.digest(out), self.state()))
        self.used = obj

    def deterministic(self, t, obj, op):
        before = self.state()
        self.run(t, obj, op)
        self.judged += 1
        if self.state() != before:
            raise Violation("draws:" + (op["a"].get("q") or op["a"]["op"]), "%s is not random but advanced the generator" % (op["a"].get("q") or op["a"]["op"]))

    def second(self, t):
        p = self.plan
        obj = self.objects() if p["fresh"] else self.used
        junk = []
        R = random.Random(p["env"])
        for op in p["hist"]:
            self.run(t, obj, op)
            junk.append(torch.empty(R.randint(1, 4000)))
        self.obj = obj
        gc.collect()
        self.env(p["env"])
        torch.manual_seed(p["ts"])
        for i, op in enumerate(p["ops"]):
            for o in p["between"][i]:
                self.deterministic(t, obj, o)
            junk.append(torch.empty(R.randint(1, 4000)))
            _, out = self.run(t, obj, op)
            self.judged += 1
            name = op["a"].get("q") or op["a"]["op"]
            if M.digest(out) != self.want[i][0]:
                raise Violation("differs:" + name, "call %d (%s) returns something else from the same generator state" % (i, name))
            if self.state() != self.want[i][1]:
                raise Violation("state:" + name, "call %d (%s) leaves another generator state" % (i, name))
            self.k.note(self.want[i][0])

    def execute(self):
        res = Result()
        p = self.plan
        keep = random.getstate()
        try:
            if p["kind"] == "process":
                self.process(res)
                return res
            self.k = K.Kernel()
            self.k.add(self.first)
            self.k.run()
            k1 = self.k
            self.k = K.Kernel()
            self.k.fired = k1.fired
            self.k.hash = k1.hash
            sw = p.get("switches") or [[], []]
            self.k.add(self.second, sw[0])
            if p.get("other"):
                others = self.objects()

                def body(t):
                    for op in p["other"]:
                        self.run(t, others, op)

                self.k.add(body, sw[1])
            with Clock(p["shift"]):
                self.k.run()
        except Violation as v:
            res.violation = (v.cls, v.detail)
        except K.StepCap:
            res.violation = ("no-termination", "a call is still running after %d lines, at %s" % (self.k.step_cap, self.k.where))
        except K.Deadlock:
            res.violation = ("deadlock", "every caller waits for a lock")
        finally:
            random.setstate(keep)
        res.stats = dict(self.k.fired)
        res.stats["steps"] = self.k.total
        res.stats["judged"] = self.judged
        res.digest = self.k.hash
        res.sig = (self.k.hash ^ (self.k.switch_hash << 1)) & 0xFFFFFFFFFFFFFFF if self.judged else None
        return res

    # another process ---------------------------------------------------------
    def process(self, res):
        want = digests(self.plan["subs"])
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        env = dict(os.environ, PYTHONHASHSEED=str(self.plan["hs"]))
        r = subprocess.run(
            [sys.executable, "-c", "import sys; sys.path.insert(0, %r); from sim import rng; rng.child()" % here],
            input=json.dumps(self.plan["subs"]),
            capture_output=True,
            text=True,
            timeout=200,
            env=env,
        )
        if r.returncode != 0:
            raise K.HarnessError("child process failed: " + r.stderr[-400:])
        got = json.loads(r.stdout.strip().splitlines()[-1])
        res.stats = {"process comparison": 1, "judged": len(want), "steps": 0}
        res.digest = K.hash_bytes(json.dumps(want))
        res.sig = res.digest
        for i, (a, b) in enumerate(zip(want, got)):
            if a != b:
                res.violation = ("differs:process", "call sequence %d of the batch returns something else in another process" % i)
                return


def digests(subs):
    import zlib

    out = []
    for p in subs:
        s = Sim(p)
        s.k = K.Kernel()
        s.k.add(s.first)
        try:
            s.k.run()
            out.append([zlib.crc32(a + b) for a, b in s.want])
        except Violation as v:
            out.append(v.cls)
    return out


def child():
    K.boot()
    print(json.dumps(digests(json.loads(sys.stdin.read()))))


def execute(plan):
    return Sim(plan).execute()


def lists(plan):
    out = []
    if plan["kind"] == "process":
        names = ("subs",)
    else:
        names = ("hist", "other") if plan.get("other") else ("hist",)
        for i, b in enumerate(plan["between"]):
            if b:
                out.append(
                    (
                        lambda p, i=i: p["between"][i],
                        lambda p, sub, i=i: _with(p, lambda q: q["between"].__setitem__(i, copy.deepcopy(sub))),
                    )
                )
    for name in names:
        out.append(
            (
                lambda p, name=name: p[name],
                lambda p, sub, name=name: _with(p, lambda q: q.__setitem__(name, copy.deepcopy(sub))),
            )
        )
    return out


def simpler(plan):
    if plan["kind"] == "process":
        return
    if plan.get("other") is not None:
        yield _with(plan, lambda p: (p.pop("other"), p.pop("switches")))
    for i in range(len(plan["ops"])):
        if len(plan["ops"]) > 1:
            yield _with(plan, lambda p: (p["ops"].pop(i), p["between"].pop(i)))
    if plan["shift"]:
        yield _with(plan, lambda p: p.update(shift=0.0))
    if not plan["fresh"]:
        yield _with(plan, lambda p: p.update(fresh=True))
    for i, h in enumerate(plan["hist"]):
        if "f" in h:
            yield _with(plan, lambda p: p["hist"][i].pop("f"))
