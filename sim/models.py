"""Distributions as plain data (specs), how to build them from torch_struct, how
to ask them a question, and what the reference says the answer is."""
import math

import torch

from . import ref
from .kernel import Violation

D = torch.float64
DT = {"f64": torch.float64, "f32": torch.float32}

CLS = {
    "LC": "LinearChainCRF",
    "HMM": "HMM",
    "SM": "SemiMarkovCRF",
    "DEP": "DependencyCRF",
    "DEPL": "DependencyCRF",
    "TREE": "TreeCRF",
    "CFG": "SentCFG",
    "NP": "NonProjectiveDependencyCRF",
}
BASE = {k: k for k in CLS}
BASE["HMM"] = "LC"
MIN_L = {"LC": 1, "SM": 1, "TREE": 1, "CFG": 2, "DEP": 1, "DEPL": 1, "NP": 1}
MIN_L["HMM"] = 1

SUPPORT = {
    "partition": set(CLS),
    "marginals": set(CLS),
    "max": set(CLS) - {"NP"},
    "argmax": set(CLS) - {"NP"},
    "mode": set(CLS) - {"NP", "CFG"},
    "entropy": set(CLS) - {"NP"},
    "count": set(CLS) - {"NP", "CFG"},
    "kmax": set(CLS) - {"NP"},
    "topk": set(CLS) - {"NP", "CFG"},
    "log_prob": set(CLS) - {"NP", "CFG"},
    "sample": set(CLS) - {"NP", "CFG"},
    "gumbel": set(CLS) - {"NP", "CFG"},
    "kl": {"LC", "HMM", "TREE"},
    "cross_entropy": {"LC", "HMM", "TREE"},
    # an event to compact form and back
    "conv": {"LC", "HMM", "SM", "DEP"},
    # the same through the lower-level structure classes
    "s_sum": set(CLS) - {"NP", "HMM"},
    "s_max": set(CLS) - {"NP", "HMM"},
    "s_marginals": set(CLS) - {"NP", "HMM", "CFG"},
    "s_argmax": set(CLS) - {"NP", "HMM", "CFG"},
    "s_sample": set(CLS) - {"NP", "HMM", "CFG"},
}
EVENT_Q = ("log_prob", "conv")
RANDOM_Q = ("sample", "gumbel", "s_sample")
STRUCT = {
    "LC": "LinearChain",
    "SM": "SemiMarkov",
    "DEP": "DepTree",
    "DEPL": "DepTree",
    "TREE": "CKY_CRF",
    "CFG": "CKY",
}

# --------------------------------------------------------------------------
# generation


HUGE = {
    "LC": dict(N=(6, 40), C=(1, 6)),
    "SM": dict(N=(5, 18), C=(1, 4), K=(2, 6)),
    "DEP": dict(N=(5, 9)),
    "DEPL": dict(N=(5, 7), Lb=(1, 4)),
    "NP": dict(N=(5, 9)),
    "TREE": dict(N=(5, 12), NT=(1, 5)),
    "CFG": dict(N=(5, 8), NT=(1, 3), T=(1, 4)),
}


# few positions, many classes
WIDE = {
    "LC": dict(N=(2, 6), C=(8, 24)),
    "SM": dict(N=(3, 7), C=(4, 9), K=(2, 9)),
    "DEPL": dict(N=(3, 5), Lb=(5, 12)),
    "TREE": dict(N=(3, 6), NT=(6, 18)),
    "CFG": dict(N=(3, 5), NT=(3, 6), T=(4, 9)),
}


def gen_huge(R, fam, f32, max_B):
    "Too many structures to list: the reference is the direct recursion."
    dims = HUGE[BASE[fam]]
    if BASE[fam] in WIDE and R.random() < 0.3:
        dims = WIDE[BASE[fam]]
    d = {k: R.randint(lo, hi) for k, (lo, hi) in dims.items()}
    if "multiroot" in DEFAULTS[BASE[fam]]:
        d["multiroot"] = R.random() < 0.5
    if BASE[fam] == "LC" and dims is HUGE["LC"] and R.random() < 0.5:
        d["N"] = R.choice([8, 9, 10, 16, 17, 18, 32, 33, 34])
    B = R.randint(1, max_B + 3)
    lens = None
    if R.random() < 0.6:
        lens = [R.randint(MIN_L[fam], d["N"]) for _ in range(B)]
        lens[R.randrange(B)] = d["N"]
    s = dict(
        fam=fam, d=d, B=B, len=lens, ps=R.randrange(1 << 30), sc=R.choice([0.5, 1.0, 2.0]),
        dt="f32" if R.random() < f32 else "f64", huge=True,
    )
    if fam == "HMM":
        s["V"] = R.randint(1, 8)
        s["os"] = R.randrange(1 << 30)
    return s


DEFAULTS = {"DEP": ("multiroot",), "DEPL": ("multiroot",), "NP": ("multiroot",), "LC": (), "SM": (), "TREE": (), "CFG": ()}


def gen_spec(R, fams, big=0.15, f32=0.25, max_B=3, huge=0.0):
    fam = R.choice(fams)
    if R.random() < huge:
        return gen_huge(R, fam, f32, max_B)
    b = BASE[fam]
    large = R.random() < big
    d = dict(N=R.randint(2, 8 if large else 5))
    if b in ("DEP", "DEPL", "NP", "TREE", "CFG") and not large:
        d["N"] = R.randint(2, 4)
    if b == "LC":
        d.update(C=R.randint(1, 4))
    if b == "SM":
        d.update(C=R.randint(1, 3), K=R.randint(2, 4))
    if b in ("DEP", "NP", "DEPL"):
        d.update(multiroot=R.random() < 0.5)
    if b == "DEPL":
        d.update(Lb=R.randint(1, 3))
    if b == "TREE":
        d.update(NT=R.randint(1, 3))
    if b == "CFG":
        d.update(NT=R.randint(1, 2), T=R.randint(1, 3))
    B = R.randint(1, max_B)
    if max_B > 2 and R.random() < 0.05:
        B = R.randint(max_B + 1, 20)
    lens = None
    if R.random() < 0.6:
        lens = [R.randint(MIN_L[fam], d["N"]) for _ in range(B)]
        lens[R.randrange(B)] = d["N"]
    s = dict(
        fam=fam,
        d=d,
        B=B,
        len=lens,
        ps=R.randrange(1 << 30),
        sc=R.choice([0.5, 1.0, 1.0, 2.0]),
        dt="f32" if R.random() < f32 else "f64",
    )
    x = R.random()
    if x < 0.05 and b != "NP":
        s["sc"] = 20.0
    elif x < 0.1 and b != "NP":
        s["sh"] = R.choice([-200.0, 200.0])
    if fam == "HMM":
        s["V"] = R.randint(1, 4)
        s["os"] = R.randrange(1 << 30)
    return shrink_to_enum(s)


def lens_of(s):
    return s["len"] if s["len"] is not None else [s["d"]["N"]] * s["B"]


def shrink_to_enum(s):
    "Keep every row small enough for enumeration."
    b = BASE[s["fam"]]
    if s.get("huge"):
        for k, v in s["d"].items():
            if k in HUGE[b]:
                top = max(lim[b][k][1] for lim in (HUGE, WIDE) if b in lim)
                s["d"][k] = min(max(v, 2 if k in ("N", "K") else 1), top)
        if s["len"] is not None:
            s["len"] = [min(x, s["d"]["N"]) for x in s["len"]]
            if max(s["len"]) < s["d"]["N"]:
                s["len"][0] = s["d"]["N"]
        return s
    while not all(ref.enumerable(b, s["d"], L) for L in lens_of(s)):
        d = s["d"]
        if d["N"] > 3:
            d["N"] -= 1
            if s["len"] is not None:
                s["len"] = [min(x, d["N"]) for x in s["len"]]
        else:
            for k in ("C", "NT", "T", "Lb"):
                if d.get(k, 1) > 1:
                    d[k] -= 1
                    break
            else:
                d["N"] = 2
                if s["len"] is not None:
                    s["len"] = [min(x, 2) for x in s["len"]]
    return s


def mutate_spec(R, s):
    "A near duplicate: one attribute changed."
    import copy

    s = copy.deepcopy(s)
    d = s["d"]
    opts = ["ps", "len", "len", "dt", "sc"]
    if "multiroot" in d:
        opts += ["multiroot"] * 4
    for k in ("C", "NT", "T", "Lb", "K"):
        if k in d:
            opts.append(k)
    opts += ["N", "B"]
    if s["fam"] == "HMM":
        opts += ["os"]
    what = R.choice(opts)
    if what == "ps":
        s["ps"] = R.randrange(1 << 30)
    elif what == "os":
        s["os"] = R.randrange(1 << 30)
    elif what == "sc":
        s["sc"] = R.choice([0.5, 1.0, 2.0])
    elif what == "dt":
        s["dt"] = "f32" if s["dt"] == "f64" else "f64"
    elif what == "multiroot":
        d["multiroot"] = not d["multiroot"]
    elif what == "len":
        if s["len"] is None or R.random() < 0.8:
            lo = MIN_L[s["fam"]]
            s["len"] = [R.randint(lo, d["N"]) for _ in range(s["B"])]
            s["len"][R.randrange(s["B"])] = d["N"]
        else:
            s["len"] = None
    elif what == "B":
        s["B"] = max(1, s["B"] + R.choice([-1, 1]))
        if s["len"] is not None:
            s["len"] = (s["len"] * 4)[: s["B"]]
            s["len"][0] = d["N"]
    elif what == "N":
        d["N"] = max(2, d["N"] + R.choice([-1, 1]))
        if s["len"] is not None:
            s["len"] = [min(x, d["N"]) for x in s["len"]]
            s["len"][0] = d["N"]
    elif what == "K":
        d["K"] = 2 + (d["K"] - 2 + R.choice([1, 2])) % 3
    else:
        d[what] = max(1, d[what] + R.choice([-1, 1]))
    return shrink_to_enum(s)


# --------------------------------------------------------------------------
# parameters


def _rand(seed, shape, sc, dt, sh=0.0):
    g = torch.Generator().manual_seed(seed)
    return (torch.randn(tuple(shape), generator=g, dtype=D) * sc + sh).to(DT[dt])


# the questions that have an answer when scores are minus infinity
INF_Q = ("partition", "max", "argmax", "mode", "count", "s_sum", "s_max", "s_argmax")


def ruled_out(s):
    return bool(s.get("fb")) and s["fb"][2] == "-inf"


def laid_out(t, lay):
    """The same values in another memory layout: 1 = two dimensions swapped in
    memory, 2 = a window of a larger buffer."""
    if lay == 1 and t.dim() > 1:
        a, b = (1, 2) if t.dim() > 2 else (0, 1)
        return t.transpose(a, b).contiguous().transpose(a, b)
    if lay == 2:
        big = torch.full([n + 2 for n in t.shape], 7.5, dtype=t.dtype)
        win = big[tuple(slice(1, n + 1) for n in t.shape)]
        win.copy_(t)
        return win
    return t


def make_params(s):
    """Leaf tensors handed to the library, in order."""
    return [laid_out(t, s.get("lay", 0)) for t in forbid(s, _make_params(s))]


def forbid(s, params):
    """Rule out a part of the structures by very low scores, as users mask
    transitions or arcs; one structure of every row stays."""
    import random

    if s.get("fb"):
        R = random.Random(s["fb"][0])
        for b, L in enumerate(lens_of(s)):
            keep = make_event(dict(s, B=1, len=[L]), R.randrange(1 << 30), 1)[0, 0]
            g = torch.Generator().manual_seed(R.randrange(1 << 30))
            off = torch.rand(keep.shape, generator=g) < s["fb"][1]
            params[0][b][off & (keep == 0)] = float(s["fb"][2])
    return params


def _make_params(s):
    fam, d, B = s["fam"], s["d"], s["B"]
    if fam == "CFG":
        return [
            _rand(s["ps"] + i, (B,) + sh, s["sc"], s["dt"], s.get("sh", 0.0))
            for i, sh in enumerate(ref.cfg_shapes(d))
        ]
    if fam == "HMM":
        C, V = d["C"], s["V"]
        return [
            _rand(s["ps"], (C, C), s["sc"], s["dt"], s.get("sh", 0.0)),
            _rand(s["ps"] + 1, (V, C), s["sc"], s["dt"], s.get("sh", 0.0)),
            _rand(s["ps"] + 2, (C,), s["sc"], s["dt"], s.get("sh", 0.0)),
        ]
    return [_rand(s["ps"], (B,) + ref.event_shape(fam, d), s["sc"], s["dt"], s.get("sh", 0.0))]


def make_obs(s):
    g = torch.Generator().manual_seed(s["os"])
    return torch.randint(0, s["V"], (s["B"], s["d"]["N"]), generator=g)


def make_lengths(s):
    return None if s["len"] is None else torch.tensor(s["len"])


def ref_pots(s, params, obs=None):
    """Reference potentials (float64) from float64 params."""
    if s["fam"] == "CFG":
        return tuple(params)
    if s["fam"] == "HMM":
        tr, em, ini = params
        B, N = obs.shape
        rows = []
        for b in range(B):
            steps = []
            for n in range(N - 1):
                x = tr + em[obs[b, n + 1]][:, None]
                if n == 0:
                    x = x + (ini + em[obs[b, 0]])[None, :]
                steps.append(x)
            rows.append(torch.stack(steps))
        return torch.stack(rows)
    return params[0]


class Live:
    """A distribution object of the library together with its parameters."""

    def __init__(self, s, params=None):
        self.s = s
        self.params = make_params(s) if params is None else params
        self.lengths = make_lengths(s)
        self.obs = make_obs(s) if s["fam"] == "HMM" else None
        self.dist = None
        self._ref = {}

    def inputs(self):
        out = list(self.params)
        if self.lengths is not None:
            out.append(self.lengths)
        if self.obs is not None:
            out.append(self.obs)
        return out

    def build(self, ts, params=None):
        s, fam = self.s, self.s["fam"]
        p = self.params if params is None else params
        cls = getattr(ts, CLS[fam])
        if fam == "HMM":
            self.dist = cls(*p, self.obs, lengths=self.lengths)
        elif fam == "CFG":
            self.dist = cls(tuple(p), lengths=self.lengths)
        elif "multiroot" in s["d"]:
            self.dist = cls(p[0], lengths=self.lengths, multiroot=s["d"]["multiroot"])
        else:
            self.dist = cls(p[0], lengths=self.lengths)
        return self.dist

    def ref(self, leaf=None):
        """Reference distribution; leaf: float64 params to differentiate."""
        s = self.s
        if leaf is None:
            leaf = [p.detach().to(D).clamp(min=-1e6) for p in self.params]
        return ref.RefDist(
            BASE[s["fam"]], s["d"], lens_of(s), ref_pots(s, leaf, self.obs)
        )


# --------------------------------------------------------------------------
# questions


def gen_query(R, s, among=None, grad=False):
    fam = s["fam"]
    qs = sorted(q for q in (among or SUPPORT) if fam in SUPPORT[q])
    if fam == "SM" and min(lens_of(s)) < 2:
        # a single position has no compact form
        qs = [q for q in qs if q != "conv"]
    if ruled_out(s):
        qs = [q for q in qs if q in INF_Q] or ["partition"]
    q = R.choice(qs)
    a = {"q": q}
    if q in ("kmax", "topk"):
        x = R.random()
        a["k"] = R.randint(1, 4) if x < 0.9 else R.randint(5, 9) if x < 0.98 else R.randint(10, 24)
    if q in ("sample",):
        a["n"] = R.choice([1, 2, 3, 9, 10, 11, 12] if R.random() < 0.9 else [16, 17, 20, 21, 31, 40, 64, 101])
    if q == "gumbel":
        a["t"] = R.choice([0.1, 0.3, 0.7, 1.0, 2.0, 5.0])
    if q in ("s_sum", "s_max", "s_marginals", "s_argmax", "s_sample") and R.random() < 0.4:
        # through a semiring that recomputes in the backward pass
        a["w"] = R.choice(["check", "shard"])
        a["ws"] = R.choice([0, 1, 4, 20, 100])
    if q == "conv":
        a["es"], a["n"] = R.randrange(1 << 30), 1
    if q == "log_prob":
        a["es"] = R.randrange(1 << 30)
        a["n"] = R.randint(1, 3) if R.random() < 0.9 else R.randint(4, 12)
        if R.random() < 0.4:
            a["et"] = R.choice(["int64", "bool", "float32", "float64"])
        if R.random() < 0.3:
            a["ev"] = R.choice(["single", "grid"])
    return a


def make_event(s, es, n):
    """n x B x event: structures picked by seed, as the library encodes them."""
    import random

    R = random.Random(es)
    b_ = BASE[s["fam"]]
    sh = ref.event_shape(b_, s["d"])
    out = []
    for _ in range(n):
        row = []
        for L in lens_of(s):
            if s.get("huge"):
                # the best structure for random potentials
                x = _rand(R.randrange(1 << 30), sh, 1.0, "f64").requires_grad_(True)
                with torch.enable_grad():
                    best = ref.inside(b_, s["d"], L, x, "max")
                    row.append(torch.autograd.grad(best, x)[0] if best.requires_grad else torch.zeros(sh, dtype=D))
            else:
                t = ref.table(b_, s["d"], L)
                row.append(t.S[R.randrange(t.M)].reshape(sh))
        out.append(torch.stack(row))
    return torch.stack(out)


def compact_form(b_, e):
    "{position: class, -1 = inside a segment, or head} of one event"
    on = e.nonzero().tolist()
    out = {}
    if b_ == "LC":
        for n, c, c0 in on:
            if n == 0:
                out[0] = c0
            out[n + 1] = c
    elif b_ == "SM":
        for n, k, c, c0 in on:
            if n == 0:
                out[0] = c0
            out.update({n + i: -1 for i in range(1, k)})
            out[n + k] = c
    else:
        for h, m in on:
            out[m] = 0 if h == m else h + 1
    return out


def n_best(s, L, k):
    "min(k, number of structures of a row of length L)"
    b_ = BASE[s["fam"]]
    if ref.enumerable(b_, s["d"], L):
        return min(k, ref.table(b_, s["d"], L).M)
    return k  # more than MAX_ENUM


def log_probs(r, ev, a):
    if a.get("ev") == "single":
        ev = ev[:1]
    lz = r.partition()
    return torch.stack(
        [torch.stack([r.score_of(b, e[b].reshape(-1)) for b in range(r.B)]) - lz for e in ev]
    )


def log_prob(d, a, event):
    """Events as 0/1 tensors of any type, one or several dimensions of samples."""
    if a.get("et"):
        event = event.to(getattr(torch, a["et"]))
    n, B = event.shape[:2]
    shape = (n, B)
    if a.get("ev") == "single":
        event, shape = event[0], (B,)
    elif a.get("ev") == "grid":
        rows = 2 if n % 2 == 0 else 1
        shape = (rows, n // rows, B)
        event = event.reshape(shape + event.shape[2:])
    out = d.log_prob(event)
    return out.reshape(n if a.get("ev") != "single" else 1, B) if tuple(out.shape) == shape else out


def ask(ts, live, a, other=None, event=None):
    """Put question `a` to the library."""
    q, d = a["q"], live.dist
    if q in ("partition", "marginals", "max", "argmax", "mode", "entropy", "count"):
        return getattr(d, q)
    if q == "kmax":
        return d.kmax(a["k"])
    if q == "topk":
        return d.topk(a["k"])
    if q == "log_prob":
        return log_prob(d, a, event)
    if q == "conv":
        compact, extra = d.from_event(event[0])
        return compact, d.to_event(compact, extra, live.lengths)
    if q == "sample":
        return d.sample((a["n"],))
    if q == "gumbel":
        return d.gumbel_crf(a["t"])
    if q == "kl":
        return d.kl(other.dist)
    if q == "cross_entropy":
        return d.cross_entropy(other.dist)
    st = getattr(ts, STRUCT[live.s["fam"]])
    sr = {
        "s_sum": ts.LogSemiring,
        "s_max": ts.MaxSemiring,
        "s_marginals": ts.LogSemiring,
        "s_argmax": ts.MaxSemiring,
        "s_sample": ts.SampledSemiring,
    }[q]
    if a.get("w") == "check":
        sr = ts.CheckpointSemiring(sr, a["ws"])
    elif a.get("w") == "shard":
        sr = ts.CheckpointShardSemiring(sr, a["ws"])
    pots = live.params if live.s["fam"] == "CFG" else live.params[0]
    o = st(sr)
    if live.s["fam"] in ("DEP", "DEPL"):
        o.multiroot = live.s["d"]["multiroot"]
    if q in ("s_sum", "s_max"):
        return o.sum(pots, live.lengths)
    return o.marginals(pots, live.lengths)


VALUE_OF = {"s_sum": "partition", "s_max": "max", "s_marginals": "marginals"}
EVENT_OF = {"s_argmax": "argmax", "mode": "argmax", "s_sample": "sample1"}


def tol_of(s):
    if s["fam"] == "NP":
        return 2e-2
    return 1e-6 if s["dt"] == "f64" else 2e-3


def to_flat(fam, x, B):
    if isinstance(x, (tuple, list)):
        return torch.cat([y.reshape(B, -1) for y in x[:3]], 1)
    return x.reshape(B, -1)


def close(a, b, tol, dim=None, rows=None):
    a = a.detach().to(D)
    b = b.detach().to(D)
    if a.shape != b.shape:
        return "shape %s instead of %s" % (tuple(a.shape), tuple(b.shape))
    if rows is not None and len(rows) < a.shape[dim]:
        ix = torch.tensor(rows, dtype=torch.long)
        a, b = a.index_select(dim, ix), b.index_select(dim, ix)
    if a.numel() == 0:
        return None
    bad = ~((a - b).abs() <= tol * (1 + b.abs()))
    if bool(bad.any()):
        i = int(bad.flatten().nonzero()[0])
        return "value %.9g instead of %.9g at flat index %d (of %d wrong)" % (
            a.flatten()[i],
            b.flatten()[i],
            i,
            int(bad.sum()),
        )
    return None


def judge(live, a, out, other=None, event=None, cls="wrong-answer", rows=None):
    """Raise Violation unless `out` is the right answer to `a` (in `rows`)."""
    try:
        _judge(live, a, out, other, event, cls, rows)
    except Violation:
        raise
    except Exception as e:
        # the answer has a form in which it cannot even be compared
        raise Violation("malformed:" + a["q"], "%s of %s: %s: %s" % (a["q"], CLS[live.s["fam"]], type(e).__name__, str(e)[:200]))


def _judge(live, a, out, other, event, cls, rows):
    s, q = live.s, a["q"]
    fam, B = s["fam"], s["B"]
    what = "%s of %s" % (q, CLS[fam])
    tol = tol_of(s)
    r = live.ref()
    v = VALUE_OF.get(q, q)
    rows = list(range(B)) if rows is None else rows

    def fail(msg):
        raise Violation(cls + ":" + q, "%s: %s" % (what, msg))

    if out is None:
        fail("no answer")
    if v in ("partition", "max", "entropy", "count", "kl", "cross_entropy"):
        want = {
            "partition": r.partition,
            "max": r.max,
            "entropy": r.entropy,
            "count": r.count if not ruled_out(s) else r.count_allowed,
        }.get(v)
        want = want() if want else getattr(r, v)(other.ref())
        msg = close(out, want, tol, 0, rows)
        if msg:
            fail(msg)
        return
    if v == "marginals":
        want = r.marginals_flat()
        got = to_flat(fam, out, B)
        if got.shape != want.shape:
            fail("shape %s" % (tuple(got.shape),))
        msg = close(got, want, tol, 0, rows)
        if msg:
            fail(msg)
        if fam == "CFG" and len(out) > 3 and r.enum:
            sp = r.span_marginals_flat()
            N, NT = s["d"]["N"], s["d"]["NT"]
            sp = sp.reshape(B, N, N, NT)[:, : out[3].shape[1]]
            sp = sp[:, : out[3].shape[1], : out[3].shape[2]]
            msg = close(out[3], sp, tol, 0, rows)
            if msg:
                fail("spans: " + msg)
        return
    if v == "kmax":
        if out.shape[0] != a["k"]:
            fail("%d answers instead of %d" % (out.shape[0], a["k"]))
        m = min(n_best(s, L, a["k"]) for L in lens_of(s))
        want = torch.stack([r.topk_scores(b, m) for b in range(B)], 1)
        msg = close(out[:m], want, tol, 1, rows)
        if msg:
            fail(msg)
        return
    if v == "log_prob":
        msg = close(out, log_probs(r, event, a), tol, 1, rows)
        if msg:
            fail(msg)
        return
    if v == "conv":
        compact, back = out
        msg = close(back, event[0], 0, 0, rows)
        if msg:
            fail("back to an event: " + msg)
        for b in rows:
            want = compact_form(BASE[fam], event[0][b])
            for i, c in want.items():
                if int(compact[b, i]) != c:
                    fail("row %d position %d is %d instead of %d" % (b, i, compact[b, i], c))
        return
    # events
    v = EVENT_OF.get(q, q)
    if v in ("argmax", "sample1", "gumbel"):
        evs = [out]
    elif v == "sample":
        if out.shape[0] != a["n"]:
            fail("%d samples instead of %d" % (out.shape[0], a["n"]))
        evs = list(out)
    elif v == "topk":
        evs = list(out[: min(n_best(s, L, a["k"]) for L in lens_of(s))])
    else:
        raise KeyError(q)
    best = {}
    if v == "argmax":
        top = r.max()
        best = {b: top[b : b + 1] for b in rows}
    elif v == "topk":
        best = {b: r.topk_scores(b, len(evs)) for b in rows}
    seen = {}
    b_ = BASE[fam]
    for k, ev in enumerate(evs):
        fl = to_flat(fam, ev, B)
        for b in rows:
            shaped = fl[b] if fam == "CFG" else fl[b].reshape(ref.event_shape(b_, s["d"]))
            why = ref.decode_valid(b_, s["d"], lens_of(s)[b], shaped)
            if why is None and r.enum and r.tab(b).find(fl[b]) is None:
                why = "not in the list"
            if why:
                fail("entry %d row %d is not a structure: %s" % (k, b, why))
            if v not in ("argmax", "topk"):
                continue
            sc, want = r.score_of(b, fl[b]), best[b][k]
            if abs(sc - want) > tol * (1 + abs(want)):
                fail("entry %d row %d scores %.9g instead of %.9g" % (k, b, sc, want))
            if v == "topk" and r.one_to_one(b):
                key = (b, fl[b].detach().to(D).numpy().tobytes())
                if key in seen:
                    fail("entries %d and %d of row %d are the same" % (seen[key], k, b))
                seen[key] = k


def digest(out):
    if isinstance(out, (tuple, list)):
        return b"".join(digest(x) for x in out)
    if not isinstance(out, torch.Tensor):
        return str(type(out)).encode()
    return out.detach().contiguous().cpu().numpy().tobytes()


__all__ = [n for n in dir() if not n.startswith("_")] + ["math"]
