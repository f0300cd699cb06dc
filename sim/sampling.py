"""Random results: validity for every outcome of the random source (adversary),
law and independence (seeded streams)."""
import copy
import math
import random

import torch

from . import kernel as K
from . import models as M
from . import ref
from . import stats as S
from .kernel import Violation
from .world import Result, _with

D = torch.float64
FAMS = ["LC", "HMM", "SM", "DEP", "DEPL", "TREE"]
SUSPECT, CONFIRM = 1e-6, 1e-8
CONFIRM_FACTOR = 6


# --------------------------------------------------------------------------
# the adversary: answers random operators with legal but chosen outcomes

POLICIES = ["first", "last", "rarest", "likeliest", "alternate", "random", "mixed"]


class Adversary:
    def __init__(self, kernel, policy, seed):
        self.k, self.policy = kernel, policy
        self.R = random.Random(seed)
        self.g = torch.Generator().manual_seed(seed)
        self.n = 0

    def pick(self):
        if self.policy == "mixed":
            return self.R.choice(POLICIES[:-1])
        return self.policy

    def __call__(self, func, args, kwargs):
        name = func._schema.name
        if not name.startswith("aten::"):
            return None
        name = name[6:]
        if name == "multinomial":
            return self.multinomial(*args, **kwargs)
        if name in ("rand", "rand_like"):
            out = func(*args, **kwargs)
            return self.fill(out)
        if name == "uniform_":
            x = args[0]
            lo = args[1] if len(args) > 1 else kwargs.get("from", 0.0)
            hi = args[2] if len(args) > 2 else kwargs.get("to", 1.0)
            self.fill(x)
            return x.mul_(hi - lo).add_(lo)
        if name == "exponential_":
            u = self.fill(torch.empty_like(args[0]))
            return args[0].copy_(-torch.log1p(-u) + torch.finfo(u.dtype).tiny)
        return None

    def fill(self, x):
        self.k.count("adversary:uniform")
        eps = torch.finfo(x.dtype).eps / 2
        pol = self.pick()
        u = torch.rand(x.shape, generator=self.g, dtype=D).to(x.dtype)
        top = torch.full_like(x, 1 - eps)
        if pol == "first":
            x.zero_()
        elif pol in ("last",):
            x.copy_(top)
        elif pol == "rarest":
            x.copy_(torch.where(u < 0.5, torch.zeros_like(x), top))
        elif pol == "alternate":
            x.zero_()
            x.view(-1)[self.n % 2 :: 2] = 1 - eps
            self.n += 1
        elif pol == "likeliest":
            x.fill_(0.5)
        else:
            x.copy_(torch.minimum(u, top))
        return x

    def multinomial(self, p, n, replacement=False, generator=None):
        self.k.count("adversary:multinomial")
        one = p.dim() == 1
        q = (p[None] if one else p).detach()
        rows, c = q.shape
        if not bool(torch.isfinite(q).all()) or bool((q < 0).any()) or bool((q.sum(1) <= 0).any()):
            raise RuntimeError("probability tensor contains either inf, nan or element < 0")
        if not replacement and n > 1:
            return None
        out = torch.zeros(rows, n, dtype=torch.long)
        idx = torch.arange(c).expand(rows, c)
        pos = q > 0
        big = c + 1
        for j in range(n):
            pol = self.pick()
            if pol == "first" or (pol == "alternate" and (self.n + j) % 2 == 0):
                o = torch.where(pos, idx, torch.full_like(idx, big)).argmin(1)
            elif pol in ("last", "alternate"):
                o = torch.where(pos, idx, torch.full_like(idx, -1)).argmax(1)
            elif pol == "rarest":
                o = torch.where(pos, q, torch.full_like(q, 9.0)).argmin(1)
            elif pol == "likeliest":
                o = q.argmax(1)
            else:
                w = torch.rand(rows, c, generator=self.g, dtype=D) + 1e-3
                o = torch.where(pos, w, torch.zeros_like(w)).argmax(1)
            out[:, j] = o
        self.n += 1
        return out[0] if one else out


# --------------------------------------------------------------------------
# generation


def _masked(R, s):
    s["mask"] = R.randrange(1 << 30)
    s["mf"] = R.choice([0.1, 0.3, 0.6])
    return s


def temperature(R):
    return R.choice([0.5, 1.0, 1.0, 2.0]) if R.random() < 0.5 else round(math.exp(R.uniform(math.log(0.1), math.log(8))), 3)


@K.configured
def generate(prop, seed):
    R = random.Random("samp/%s/%d" % (prop, seed))
    plan = {"world": "sampling", "prop": prop, "seed": seed}
    if prop == "C04" or (prop == "C07" and R.random() < 0.9):
        specs = []
        for _ in range(R.randint(1, 2)):
            s = M.gen_spec(R, FAMS, f32=0.35, max_B=4, huge=0.12)
            if R.random() < 0.35 and s["fam"] != "HMM":
                _masked(R, s)
            specs.append(s)
        if R.random() < 0.4:
            specs.append(M.mutate_spec(R, specs[0]))
            specs[-1].pop("mask", None)
        calls = []
        for _ in range(R.randint(1, 4)):
            c = {"s": R.randrange(len(specs)), "pol": R.choice(POLICIES), "as": R.randrange(1 << 30)}
            if prop == "C04":
                c["m"] = R.choice(["sample"] * 5 + ["s_sample"])
                c["n"] = R.choice([1, 2, 3, 5, 9, 10, 11, 15, 19, 20, 21, 25, 31] if R.random() < 0.95 else [40, 64, 101])
            else:
                c["m"] = R.choice(["gumbel", "gumbel", "gumbel", "s_gumbelmax"])
                c["t"] = R.choice([0.2, 0.5, 1.0, 1.0, 3.0, 10.0])
                c["ws"] = R.randrange(1 << 30)
            if c["m"].startswith("s_"):
                c["wr"] = _wrapping(R)
            if R.random() < 0.25:
                c["gm"] = "off"
            if R.random() < 0.1:
                c["f"] = [R.choice(["oom", "interrupt"]), R.randint(1, R.choice([20, 100, 400]))]
            if R.random() < 0.3:
                c["pol"] = None  # the real generator
            calls.append(c)
        plan.update(kind="valid", specs=specs, calls=calls)
        return plan
    # law
    huge = R.random() < 0.2
    while True:
        s = M.gen_spec(R, FAMS, f32=0.35, max_B=1, big=0.05, huge=1.0 if huge else 0.0)
        s["len"] = None
        if huge:
            break
        ms = [ref.n_structs_estimate(M.BASE[s["fam"]], s["d"], s["d"]["N"])]
        if 2 <= ms[0] <= 60:
            break
    s["sc"] = R.choice([0.0, 0.5, 1.0, 1.5])
    G = R.randint(1, 3) if s["fam"] != "HMM" else 1
    reps = R.choice([48, 96, 160]) if not huge else R.choice([32, 48])
    lo = max(M.MIN_L[s["fam"]], 2)
    lens = [R.randint(lo, s["d"]["N"]) for _ in range(G)]
    lens[R.randrange(G)] = s["d"]["N"]
    plan.update(
        kind="hugelaw" if huge else "law",
        spec=s,
        G=G,
        reps=reps,
        lens=lens,
        method="sample" if prop == "C05" else R.choice(["gumbel", "gumbel", "gumbel", "s_gumbelmax"]),
        n=R.choice([10, 20, 24, 31] if R.random() < 0.93 else [50, 81]),
        t=temperature(R),
        hist=[],
    )
    if prop == "C05" and R.random() < 0.2:
        plan["method"] = "s_sample"
    if plan["method"].startswith("s_"):
        plan["wr"] = _wrapping(R)
    if R.random() < 0.4:
        # short calls, of one or of changing length
        plan["ns"] = [R.choice([1, 2, 3, 4, 7, 10, 12]) for _ in range(R.randint(1, 3))]
        plan["tail"] = R.random() < 0.3
    plan["objs"] = R.choice(["same", "same", "new", "pair"])
    if R.random() < 0.3:
        plan["mid"] = [M.gen_query(R, s, ["partition", "marginals", "argmax", "max", "sample", "gumbel", "entropy", "kmax"]) for _ in range(R.randint(1, 2))]
    if R.random() < 0.5:
        for _ in range(R.randint(1, 3)):
            s2 = M.mutate_spec(R, s) if R.random() < 0.7 else M.gen_spec(R, FAMS)
            h = {"spec": s2, "a": M.gen_query(R, s2, ["sample", "gumbel", "marginals", "argmax"])}
            if R.random() < 0.3:
                h["f"] = [R.choice(["oom", "interrupt"]), R.randint(1, R.choice([20, 100, 400]))]
            plan["hist"].append(h)
    return plan


def _wrapping(R):
    "Through a semiring that recomputes in the backward pass, or not."
    if R.random() < 0.6:
        return None
    return [R.choice(["check", "shard"]), R.choice([0, 1, 4, 20, 100])]


# --------------------------------------------------------------------------
# execution


def build(ts, s, params=None):
    lv = M.Live(s, params)
    if "mask" in s:
        # zero-probability entries; one structure always stays possible
        R = random.Random(s["mask"])
        b_ = M.BASE[s["fam"]]
        for b, L in enumerate(M.lens_of(s)):
            one = dict(s, B=1, len=[L])
            keep = M.make_event(one, R.randrange(1 << 30), 1)[0, 0]
            g = torch.Generator().manual_seed(R.randrange(1 << 30))
            off = torch.rand(keep.shape, generator=g) < s["mf"]
            lv.params[0][b][off & (keep == 0)] = -1e4
    lv.build(ts)
    return lv


def call_method(ts, lv, c):
    if c["m"] == "sample":
        return lv.dist.sample((c["n"],))
    if c["m"] == "gumbel":
        return lv.dist.gumbel_crf(c["t"])
    st = getattr(ts, M.STRUCT["LC" if lv.s["fam"] == "HMM" else lv.s["fam"]])
    if c["m"] == "s_sample":
        sr = ts.SampledSemiring
    else:
        from torch_struct.semirings import GumbelMaxSemiring

        sr = GumbelMaxSemiring(c["t"])
    if c.get("wr"):
        sr = {"check": ts.CheckpointSemiring, "shard": ts.CheckpointShardSemiring}[c["wr"][0]](sr, c["wr"][1])
    o = st(sr)
    if lv.s["fam"] in ("DEP", "DEPL"):
        o.multiroot = lv.s["d"]["multiroot"]
    with torch.enable_grad():
        return o.marginals(lv.dist.log_potentials, lv.lengths)


class Sim:
    def __init__(self, plan):
        import torch_struct

        self.ts = torch_struct
        self.plan = plan
        self.judged = 0

    def guarded(self, t, c, fn, adversary=None):
        before = K.ambient()
        out = self.guarded_in(t, c, fn, adversary)
        K.ambient_check(before, c.get("m", "query"))
        return out

    def guarded_in(self, t, c, fn, adversary):
        t.op_lines = t.op_disp = 0
        t.fault = K.Fault(*c["f"]) if c.get("f") else None
        try:
            t.in_op = True
            with K.SimMode(self.k, t, adversary):
                return "ok", fn()
        except (Violation, K.StepCap):
            raise
        except BaseException as e:
            if t.fault is not None and t.fault.fired and K.is_injected(e):
                return "injected", None
            if isinstance(e, K.HarnessError):
                raise
            raise Violation(
                "error:" + c.get("m", "query"),
                "%s raised %s: %s" % (c.get("m", "query"), type(e).__name__, str(e)[:300]),
            )
        finally:
            t.in_op = False
            t.fault = None

    # validity ---------------------------------------------------------------
    def valid(self, t):
        lives = {}
        for c in self.plan["calls"]:
            s = self.plan["specs"][c["s"]]
            if c["s"] not in lives:
                lives[c["s"]] = build(self.ts, s)
                if c["m"].startswith(("gumbel", "s_gumbel")):
                    for p in lives[c["s"]].params:
                        p.requires_grad_(True)
                    lives[c["s"]].build(self.ts)
            lv = lives[c["s"]]
            self.k.count("call:" + c["m"])
            adv = None
            if c["pol"] is not None:
                adv = Adversary(self.k, c["pol"], c["as"])

            with torch.set_grad_enabled(c.get("gm") != "off"):
                st, out = self.guarded(t, c, lambda: call_method(self.ts, lv, c), adv)
            if st != "ok":
                continue
            self.k.note(M.digest(out))
            try:
                self.judge_valid(lv, c, out)
            except Violation:
                raise
            except Exception as e:
                raise Violation("malformed:" + c["m"], "%s: %s" % (type(e).__name__, str(e)[:200]))
            if c["m"] == "gumbel" and c.get("gm") != "off":
                g = torch.Generator().manual_seed(c["ws"])
                w = torch.randn(out.shape, generator=g, dtype=D).to(out.dtype)
                st, gr = self.guarded(
                    t,
                    {"m": "gumbel backward"},
                    lambda: torch.autograd.grad((out * w).sum(), lv.params, allow_unused=True, retain_graph=True),
                    adv,
                )
                for x in gr:
                    if x is not None and not bool(torch.isfinite(x).all()):
                        raise Violation("gradient", "gumbel gradient of %s is not finite" % M.CLS[s["fam"]])
                self.k.count("gumbel gradients")

    def judge_valid(self, lv, c, out):
        s = lv.s
        b_ = M.BASE[s["fam"]]
        want = tuple(lv.dist.log_potentials.shape)
        if c["m"] == "sample":
            want = (c["n"],) + want
        if tuple(out.shape) != want:
            raise Violation("shape:" + c["m"], "%s instead of %s" % (tuple(out.shape), want))
        evs = out if c["m"] == "sample" else [out]
        lens = M.lens_of(s)
        for k, ev in enumerate(evs):
            for b in range(s["B"]):
                self.judged += 1
                why = ref.decode_valid(b_, s["d"], lens[b], ev[b])
                if why is None and not s.get("huge") and ref.table(b_, s["d"], lens[b]).find(ev[b].reshape(-1)) is None:
                    why = "not among the structures of this row"
                if why is None and "mask" in s:
                    if float((ev[b].to(D) * lv.params[0][b].to(D)).sum()) < -5e3:
                        why = "structure of probability zero"
                if why:
                    raise Violation(
                        "invalid:" + c["m"],
                        "%s of %s, entry %d row %d (length %d): %s"
                        % (c["m"], M.CLS[s["fam"]], k, b, lens[b], why),
                    )

    # law ----------------------------------------------------------------------
    def rows(self):
        p = self.plan
        s, G, reps = copy.deepcopy(p["spec"]), p["G"], p["reps"]
        s["B"] = G
        s["len"] = p["lens"] if G > 1 else None
        small = M.Live(s)
        big = copy.deepcopy(s)
        big["B"] = G * reps
        if s["fam"] == "HMM":
            lv = M.Live(big, small.params)
            lv.obs = small.obs.repeat(reps, 1)
        else:
            lv = M.Live(big, [small.params[0].repeat(reps, *[1] * (small.params[0].dim() - 1))])
        lv.lengths = None if s["len"] is None else torch.tensor(s["len"]).repeat(reps)
        big["len"] = None if s["len"] is None else s["len"] * reps
        lv.build(self.ts)
        return s, small, lv

    def index(self, tab, evs):
        """Structure numbers of events (m x F); invalid ones are a violation."""
        g = torch.Generator().manual_seed(1)
        w = torch.randint(-(1 << 40), 1 << 40, (tab.S.shape[1],), generator=g)
        keys = (tab.S.long() * w).sum(1).tolist()
        num = {}
        for i, k in enumerate(keys):
            num.setdefault(k, i)
        if not bool(((evs == 0) | (evs == 1)).all()):
            raise Violation("invalid:" + self.plan["method"], "entries other than 0/1")
        got = (evs.long() * w).sum(1).tolist()
        try:
            return torch.tensor([num[k] for k in got]), num, keys
        except KeyError:
            raise Violation("invalid:" + self.plan["method"], "an event is not a structure")

    def draw(self, t, lv, calls):
        p = self.plan
        ns = p.get("ns") or [p["n"]]
        m = min(ns)
        outs, objs = [], [lv]
        if p.get("objs") == "pair":
            objs.append(self.twin(lv))
        for i in range(calls):
            c = {"m": p["method"], "n": ns[i % len(ns)], "t": p["t"], "wr": p.get("wr")}
            if p.get("objs") == "new":
                objs = [self.twin(lv)]
            o = objs[i % len(objs)]
            for a in p.get("mid", ()) if i % 3 == 1 else ():
                self.guarded(t, {"m": a["q"]}, lambda: M.ask(self.ts, o, a))
            st, o = self.guarded(t, c, lambda: call_method(self.ts, o, c))
            if p["method"] != "sample":
                o = o[None]
            elif p.get("tail"):
                o = o[len(o) - m :]
            outs.append(o[:m].detach())
        return torch.stack(outs)  # calls x n x rows x event

    def twin(self, lv):
        "Another distribution object over the same tensors."
        o = M.Live(lv.s, lv.params)
        o.obs, o.lengths = lv.obs, lv.lengths
        o.build(self.ts)
        return o

    def law(self, t):
        p = self.plan
        torch.manual_seed(p["seed"] % (1 << 31))
        for h in p["hist"]:
            lv = build(self.ts, h["spec"])
            self.k.count("history")
            self.guarded(t, {"m": h["a"]["q"], "f": h.get("f")}, lambda: M.ask(self.ts, lv, h["a"]))
        s, small, lv = self.rows()
        calls = 40
        if p["method"] == "sample":
            calls = 4 if not p.get("ns") else min(40, 64 // min(p["ns"]) + 3)
        tests = self.tests if p["kind"] == "law" else self.huge_tests
        bad = tests(s, small, lv, self.draw(t, lv, calls))
        if bad:
            self.k.count("suspicion followed up")
            again = tests(s, small, lv, self.draw(t, lv, calls * CONFIRM_FACTOR))
            for name in bad:
                if again.get(name, 1) < CONFIRM and bad[name] < SUSPECT:
                    raise Violation(
                        "law:" + name.split("/")[0],
                        "%s of %s: %s, p=%.3g then p=%.3g on fresh draws"
                        % (p["method"], M.CLS[s["fam"]], name, bad[name], again[name]),
                    )

    def tests(self, s, small, lv, x):
        """{test: p-value} for the suspicious ones (all when confirming)."""
        G = s["B"]
        C, n, rows = x.shape[:3]
        reps = rows // G
        x = x.reshape(C, n, reps, G, -1)
        r = small.ref()
        out = {}

        def note(name, pv):
            self.judged += 1
            out[name] = min(out.get(name, 1.0), pv)

        for g in range(G):
            tab = r.tab(g)
            sc = torch.softmax(r.scores(g).detach(), 0)
            ids, num, keys = self.index(tab, x[:, :, :, g].reshape(C * n * reps, -1))
            probs = torch.zeros(tab.M, dtype=D)
            for i, k in enumerate(keys):  # structures with equal events (length 1)
                probs[num[k]] += sc[i]
            ids = ids.reshape(C, n, reps)
            self.k.note(ids.numpy().tobytes())
            cnt = lambda v: torch.bincount(v.reshape(-1), minlength=tab.M).double()
            if len(probs) < 2:
                continue
            note("probabilities/group%d" % g, S.gof(cnt(ids), probs))
            for k in range(n):
                note("position/%d/group%d" % (k, g), S.gof(cnt(ids[:, k]), probs))
            half = reps // 2
            note("first rows/group%d" % g, S.gof(cnt(ids[:, :, :1]), probs))
            note("last rows/group%d" % g, S.gof(cnt(ids[:, :, -1:]), probs))

            def pair(name, a, b):
                if a.numel():
                    note("%s/group%d" % (name, g), S.independent(a.reshape(-1), b.reshape(-1), probs, probs))

            for d in sorted({1, 2, 5, 8, 10, 16, n - 1}):
                if 0 < d < n:
                    pair("samples %d apart" % d, ids[:, d:], ids[:, :-d])
            for k in range(min(n - 1, 11)):
                pair("samples %d,%d" % (k, k + 1), ids[:, k], ids[:, k + 1])
            pair("rows", ids[:, :, 1:], ids[:, :, :-1])
            pair("far rows", ids[:, :, :half], ids[:, :, half : 2 * half])
            if C > 1:
                pair("calls", ids[1:], ids[:-1])
                pair("first and last call", ids[0], ids[-1])
                pair("calls two apart", ids[2:], ids[:-2])
                for d in (1, 2, 5):
                    if d < n:
                        pair("calls, shifted by %d" % d, ids[1:, d:], ids[:-1, :-d])
                        pair("calls, shifted by -%d" % d, ids[1:, :-d], ids[:-1, d:])
        if G > 1:
            # neighbouring rows of different parameters
            self.cross(r, s, x, note)
        bad = {k: v for k, v in out.items() if v < SUSPECT}
        return bad if bad else {}

    def huge_tests(self, s, small, lv, x):
        """The same questions for models whose structures cannot be listed: single
        features against the marginals, copies against the collision probability,
        dependence by the correlation of a random linear score."""
        G, b_ = s["B"], M.BASE[s["fam"]]
        C, n, rows = x.shape[:3]
        reps = rows // G
        x = x.reshape(C, n, reps, G, -1).to(D)
        r = small.ref()
        out = {}

        def note(name, pv):
            self.judged += 1
            out[name] = min(out.get(name, 1.0), pv)

        marg = r.marginals_flat().detach()
        two = ref.RefDist(b_, s["d"], r.lengths, r.pots * 2)
        coll = (two.partition() - 2 * r.partition()).exp().tolist()
        g0 = torch.Generator().manual_seed(self.plan["seed"] % (1 << 31))
        sh = ref.event_shape(b_, s["d"])
        for g in range(G):
            y = x[:, :, :, g]
            self.k.note(y.numpy().tobytes())
            flat = y.reshape(C * n * reps, -1)
            for i in torch.randint(len(flat), (20,), generator=g0).tolist():
                why = ref.decode_valid(b_, s["d"], r.lengths[g], flat[i].reshape(sh))
                if why:
                    raise Violation("invalid:" + self.plan["method"], why)

            def features(name, z):
                z = z.reshape(-1, z.shape[-1])
                note("%s/group%d" % (name, g), S.binomials(z.sum(0), len(z), marg[g]))

            features("probabilities", y)
            for k in range(n):
                features("position/%d" % k, y[:, k])
            features("first rows", y[:, :, :1])
            features("last rows", y[:, :, -1:])
            w = torch.randn(y.shape[-1], generator=g0, dtype=D)
            v = y @ w

            def pair(name, sel_a, sel_b):
                a, b = y[sel_a], y[sel_b]
                if not a.numel():
                    return
                hits = int((a == b).all(-1).sum())
                note("%s (copies)/group%d" % (name, g), S.poisson_tail(hits, coll[g] * a.shape[:-1].numel()))
                note("%s (correlation)/group%d" % (name, g), S.correlation(v[sel_a].reshape(-1), v[sel_b].reshape(-1)))

            A = slice(None)
            for d in sorted({1, 5, 10, 16, n - 1}):
                if 0 < d < n:
                    pair("samples %d apart" % d, (A, slice(d, None)), (A, slice(None, -d)))
            pair("rows", (A, A, slice(1, None)), (A, A, slice(None, -1)))
            if C > 1:
                pair("calls", (slice(1, None),), (slice(None, -1),))
                pair("calls two apart", (slice(2, None),), (slice(None, -2),))
                for d in (1, 2, 5):
                    if d < n:
                        pair("calls, shifted by %d" % d, (slice(1, None), slice(d, None)), (slice(None, -1), slice(None, -d)))
                        pair("calls, shifted by -%d" % d, (slice(1, None), slice(None, -d)), (slice(None, -1), slice(d, None)))
        return {k: v for k, v in out.items() if v < SUSPECT}

    def cross(self, r, s, x, note):
        C, n, reps, G = x.shape[:4]
        idp = []
        for g in (0, 1):
            tab = r.tab(g)
            ids, num, keys = self.index(tab, x[:, :, :, g].reshape(C * n * reps, -1))
            sc = torch.softmax(r.scores(g).detach(), 0)
            probs = torch.zeros(tab.M, dtype=D)
            for i, k in enumerate(keys):
                probs[num[k]] += sc[i]
            idp.append((ids, probs))
        (a, pa), (b, pb) = idp
        note("rows of different parameters", S.independent(a, b, pa, pb))

    def execute(self):
        res = Result()
        self.k = K.Kernel(step_cap=3_000_000)
        torch.manual_seed(self.plan["seed"] % (1 << 31))
        fn = self.valid if self.plan["kind"] == "valid" else self.law
        self.k.add(fn)
        try:
            self.k.run()
        except Violation as v:
            res.violation = (v.cls, v.detail)
        except K.StepCap:
            res.violation = ("no-termination", "a call is still running after %d lines, at %s" % (self.k.step_cap, self.k.where))
        res.stats = dict(self.k.fired)
        res.stats["steps"] = self.k.total
        res.stats["judged"] = self.judged
        res.digest = self.k.hash
        res.sig = self.k.hash if self.judged else None
        return res


def execute(plan):
    return K.configuration(plan, Sim(plan).execute)


def lists(plan):
    out = []
    for name in ("calls", "hist", "mid"):
        if plan.get(name):
            out.append(
                (
                    lambda p, name=name: p[name],
                    lambda p, sub, name=name: _with(p, lambda q: q.__setitem__(name, copy.deepcopy(sub))),
                )
            )
    return out


@K.plainer
def simpler(plan):
    if plan.get("wr"):
        yield _with(plan, lambda p: p.pop("wr"))
    for i, c in enumerate(plan.get("calls", ())):
        for key in ("f", "gm", "wr"):
            if key in c:
                yield _with(plan, lambda p: p["calls"][i].pop(key))
        if c.get("n", 1) > 1:
            yield _with(plan, lambda p: p["calls"][i].update(n=1))
            yield _with(plan, lambda p: p["calls"][i].update(n=c["n"] - 1))
    for i, s in enumerate(plan.get("specs", ())):
        if "mask" in s:
            yield _with(plan, lambda p: p["specs"][i].pop("mask"))
        if s["B"] > 1:

            def f(p):
                q = p["specs"][i]
                q["B"] -= 1
                if q["len"] is not None:
                    q["len"] = sorted(q["len"], reverse=True)[: q["B"]]

            yield _with(plan, f)
        if s["d"]["N"] > 2:

            def f2(p):
                q = p["specs"][i]
                q["d"]["N"] -= 1
                if q["len"] is not None:
                    q["len"] = [min(L, q["d"]["N"]) for L in q["len"]]

            yield _with(plan, f2)
