"""Checks of the machinery itself; not a registered check.

    python -m sim.selftest ref        the two references agree with each other
    python -m sim.selftest det C01    the same seeds give the same event logs, also
                                      in another process with another hash seed
"""
import json
import os
import random
import subprocess
import sys

import torch

from . import kernel as K


def references(n=400):
    K.boot()
    from . import models as M
    from . import ref

    worst = {}
    for seed in range(n):
        R = random.Random(seed)
        s = M.gen_spec(R, [f for f in M.CLS if f != "HMM"])
        b_ = M.BASE[s["fam"]]
        ps = [p.to(ref.D).requires_grad_(True) for p in M.make_params(s)]
        pots = tuple(ps) if b_ == "CFG" else ps[0]
        a = ref.RefDist(b_, s["d"], M.lens_of(s), pots)
        b = ref.RefDist(b_, s["d"], M.lens_of(s), pots)
        assert a.enum
        b.enum = False
        qs = ["partition", "marginals_flat"]
        if b_ != "NP":
            qs += ["max", "entropy", "count"]
        for q in qs:
            x, y = getattr(a, q)(), getattr(b, q)()
            gap = float((x - y).abs().max())
            assert gap < 1e-8 * (1 + float(x.abs().max())), (s, q, x, y)
            worst[q] = max(worst.get(q, 0), gap)
            if q in ("entropy", "marginals_flat", "partition") and x.requires_grad:
                w = torch.randn(x.shape, dtype=ref.D)
                gx = torch.autograd.grad((w * x).sum(), ps, allow_unused=True)
                gy = torch.autograd.grad((w * y).sum(), ps, allow_unused=True)
                for u, v in zip(gx, gy):
                    u = torch.zeros(()) if u is None else u
                    v = torch.zeros(()) if v is None else v
                    assert float((u - v).abs().max()) < 1e-7, (s, q)
        if b_ != "NP":
            for i in range(a.B):
                k = min(6, a.tab(i).M)
                gap = float((a.topk_scores(i, k) - b.topk_scores(i, k)).abs().max())
                assert gap < 1e-8, (s, i)
                worst["k best"] = max(worst.get("k best", 0), gap)
        if b_ not in ("CFG", "NP"):
            for i in range(a.B):
                t = a.tab(i)
                for m in range(min(t.M, 20)):
                    ev = t.S[m].reshape(ref.event_shape(b_, s["d"]))
                    assert ref.decode_valid(b_, s["d"], a.lengths[i], ev) is None
    print("references agree on %d models; largest differences %s" % (n, worst))


def determinism(prop, seed="1"):
    got = []
    for workers, hs in (("8", "0"), ("3", "4711")):
        env = dict(os.environ, VERIF_WORKERS=workers, PYTHONHASHSEED=hs, VERIF_SEED=seed)
        p = subprocess.run([sys.executable, "check.py", prop], env=env, capture_output=True, text=True)
        ev = json.load(open("evidence/%s.json" % prop))
        got.append((p.returncode, ev))
    a, b = got
    key = lambda e: [(k, v) for k, v in sorted(e.items()) if "digest" in k]
    flat = json.dumps(a[1])
    i = flat.find("event_log_digest")
    j = json.dumps(b[1]).find("event_log_digest")
    x, y = flat[i : i + 60], json.dumps(b[1])[j : j + 60]
    print(prop, a[0], b[0], "same" if x == y else "DIFFERENT", x)
    return x == y


if __name__ == "__main__":
    if sys.argv[1] == "ref":
        references()
    else:
        ok = [determinism(p) for p in sys.argv[2:]]
        sys.exit(0 if all(ok) else 1)
