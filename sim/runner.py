"""Runs many seeded simulations of one property, minimises what fails, writes
evidence and replay files.

Isolation: runs are grouped in chunks of consecutive seeds; every chunk is
executed in a child forked from the freshly booted parent, so what a chunk does
depends on its seeds and the code only, not on the worker or on earlier chunks.
"""
import copy
import gc
import hashlib
import json
import os
import pickle
import select
import signal
import subprocess
import sys
import time
import traceback

from . import kernel as K

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
CHILD_S = 300


def world(plan):
    from . import registry

    return registry.world(plan["world"])


def boot():
    K.boot()
    from . import registry

    registry.load_all()
    gc.collect()
    gc.freeze()


# --------------------------------------------------------------------------
# forked execution


class Died(Exception):
    def __init__(self, sig):
        super().__init__("child died, status %r" % (sig,))
        self.sig = sig


def spawn(fn, limit=None):
    """Run fn() in a fork; returns (pid, read fd)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            signal.alarm(limit or CHILD_S)
            try:
                data = pickle.dumps(("ok", fn()))
            except BaseException:
                data = pickle.dumps(("err", traceback.format_exc()))
            off = 0
            while off < len(data):
                off += os.write(w, data[off : off + 65536])
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def collect(pid, r):
    buf = []
    while True:
        c = os.read(r, 1 << 16)
        if not c:
            break
        buf.append(c)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        raise Died(os.WTERMSIG(status))
    data = b"".join(buf)
    if not data:
        raise Died(status)
    kind, val = pickle.loads(data)
    if kind == "err":
        raise K.HarnessError(val)
    return val


def isolated(fn, limit=None):
    return collect(*spawn(fn, limit))


# --------------------------------------------------------------------------
# cases


def run_plans(plans):
    """Execute plans one after the other; stop at the first violation."""
    out = []
    for p in plans:
        r = world(p).execute(copy.deepcopy(p))
        out.append(r)
        if r.violation:
            break
    return out


def try_case(plans, limit=None):
    """Violation class of a case in a fresh fork, or None."""
    try:
        rs = isolated(lambda: [(r.violation, r.digest) for r in run_plans(plans)], limit)
    except Died as d:
        if d.sig == signal.SIGALRM:
            return ("timeout", "run exceeds %d s" % CHILD_S), len(plans) - 1
        return ("process-died", "signal/status %s" % d.sig), len(plans) - 1
    if rs and rs[-1][0]:
        return rs[-1][0], len(rs) - 1
    return None, None


def ddmin(items, test, deadline):
    """Smallest sublist (greedy) for which test(sublist) holds."""
    n = 2
    items = list(items)
    while len(items) >= 1 and time.time() < deadline:
        size = max(1, len(items) // n)
        for i in range(0, len(items), size):
            cand = items[:i] + items[i + size :]
            if time.time() > deadline:
                return items
            if test(cand):
                items = cand
                n = max(2, n - 1)
                break
        else:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def minimise(plans, cls, budget_s=60):
    deadline = time.time() + budget_s
    tried = [0]

    def fails(ps):
        if not ps:
            return False
        tried[0] += 1
        limit = None
        if cls != "timeout":
            limit = max(1, int(deadline - time.time()) + 15)
        v, _ = try_case(ps, limit)
        return v is not None and v[0] == cls

    # earlier runs of the chunk first: mostly irrelevant
    if len(plans) > 1:
        if fails(plans[-1:]):
            plans = plans[-1:]
        else:
            head = ddmin(plans[:-1], lambda h: fails(h + plans[-1:]), deadline)
            plans = head + plans[-1:]
    for pi in range(len(plans) - 1, -1, -1):

        def put(p):
            return plans[:pi] + [p] + plans[pi + 1 :]

        progress = True
        while progress and time.time() < deadline:
            progress = False
            w = world(plans[pi])
            for lst_get, lst_set in w.lists(plans[pi]):
                cur = lst_get(plans[pi])
                if not cur:
                    continue

                def t(sub, s=lst_set):
                    return fails(put(s(plans[pi], sub)))

                small = ddmin(cur, t, deadline)
                if len(small) < len(cur):
                    plans = put(lst_set(plans[pi], small))
                    progress = True
            for cand in w.simpler(plans[pi]):
                if time.time() > deadline:
                    break
                if cand != plans[pi] and fails(put(cand)):
                    plans = put(cand)
                    progress = True
                    break
    return plans, tried[0]


# --------------------------------------------------------------------------
# batches


def chunk_job(gens, size, kinds):
    """kinds: list of (world, prop, seed)"""
    from . import registry

    plans = []
    res = dict(
        runs=0, stats={}, sigs=[], digests=[], violation=None, plans=None, samples=[]
    )
    for wname, prop, seed in kinds:
        p = registry.world(wname).generate(prop, seed)
        plans.append(p)
        r = registry.world(wname).execute(copy.deepcopy(p))
        res["runs"] += 1
        for k, v in r.stats.items():
            res["stats"][k] = res["stats"].get(k, 0) + v
        if r.sig is not None:
            res["sigs"].append(r.sig)
        res["digests"].append(r.digest)
        if r.violation:
            res["violation"] = r.violation
            res["plans"] = plans
            break
    if plans:
        res["samples"] = plans[:1]
    return res


def run_batch(chunks, deadline, stop_on_violation=True):
    """chunks: list of lists of (world, prop, seed).  Yields (index, result)."""
    nxt = 0
    live = {}
    stop = False
    out = {}
    skipped = 0
    while live or (nxt < len(chunks) and not stop):
        while len(live) < WORKERS and nxt < len(chunks) and not stop:
            if time.time() > deadline:
                skipped = len(chunks) - nxt
                stop = True
                break
            c = chunks[nxt]
            pid, r = spawn(lambda: chunk_job(None, None, c))
            live[r] = (pid, nxt, time.time())
            nxt += 1
        if not live:
            break
        ready, _, _ = select.select(list(live), [], [], 5.0)
        for r in ready:
            if r not in live:
                continue
            pid, idx, _ = live.pop(r)
            try:
                out[idx] = collect(pid, r)
            except Died as d:
                out[idx] = dict(died=d.sig)
            if "died" in out[idx] or out[idx]["violation"]:
                if stop_on_violation:
                    # earlier chunks are finished, so that the first failing one
                    # is reported whatever the timing; later ones are not needed
                    stop = True
                    for r2 in [x for x in live if live[x][1] > idx]:
                        p2 = live.pop(r2)[0]
                        os.kill(p2, signal.SIGKILL)
                        os.close(r2)
                        os.waitpid(p2, 0)
    return out, skipped


def chunked(jobs, size):
    return [jobs[i : i + size] for i in range(0, len(jobs), size)]


# --------------------------------------------------------------------------
# known findings


def load_findings():
    path = os.path.join(HERE, "known_findings.json")
    with open(path) as f:
        return json.load(f)["known"]


def finding_for(prop, violation, plans):
    for f in load_findings():
        if f["property"] == prop and f["class"] == violation[0]:
            if all(s in violation[1] for s in f.get("detail_contains", [])):
                return f
    return None


# --------------------------------------------------------------------------
# one check


def check(prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    boot()
    from . import registry

    spec = registry.PROPS[prop]
    jobs = []
    base = seed * 10_000_000
    for wname, n_quick, n_thorough, size in spec["worlds"]:
        n = n_quick if tier == "quick" else n_thorough
        js = [(wname, prop, base + i) for i in range(n)]
        jobs += chunked(js, size)
    # interleave the worlds, deterministically, so that a time cap trims evenly
    order = sorted(
        range(len(jobs)),
        key=lambda i: hashlib.sha256(("%d/%d" % (seed, i)).encode()).digest(),
    )
    jobs = [jobs[i] for i in order]
    cap = spec.get("cap", {"quick": 300, "thorough": 780})[tier]
    print(
        "check %s seed=%d tier=%s: %d runs in %d chunks"
        % (prop, seed, tier, sum(map(len, jobs)), len(jobs))
    )
    sys.stdout.flush()
    out, skipped = run_batch(jobs, t0 + cap)
    extra = {}
    violations = []
    known = []
    done = sorted(out)
    died = [i for i in done if "died" in out[i]]
    for i in done:
        if i not in died and out[i]["violation"]:
            violations.append((i, out[i]["violation"], out[i]["plans"]))
    for i in died:
        # which run of the chunk kills the process?
        plans = [registry.world(w).generate(p, s) for w, p, s in jobs[i]]
        v, j = try_case(plans)
        if v is None:
            raise K.HarnessError("chunk %d died (%s) once" % (i, out[i]["died"]))
        violations.append((i, v, plans[: j + 1]))
    if not violations and "after" in spec:
        v, extra = spec["after"](seed, tier, t0 + cap)
        if v:
            violations.append((-1, v["violation"], v["plans"]))
    stats, sigs, digests, runs = {}, set(), [], 0
    samples = []
    for i in done:
        r = out[i]
        if "died" in r:
            continue
        runs += r["runs"]
        sigs.update(r["sigs"])
        digests.append((i, r["digests"]))
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        if len(samples) < 3:
            samples += r["samples"]
    runs += extra.pop("runs", 0)
    sigs.update(extra.pop("sigs", ()))
    for k, v in extra.pop("stats", {}).items():
        stats[k] = stats.get(k, 0) + v
    planned = sum(map(len, jobs))
    reported = []
    for i, v, plans in sorted(violations, key=lambda x: x[0])[:1]:
        f = finding_for(prop, v, plans)
        if f is not None:
            known.append(f)
            continue
        reported.append(report(prop, seed, tier, v, plans))
    wall = time.time() - t0
    steps = stats.get("steps", 0)
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=spec["level"],
        wall_s=round(wall, 2),
        violations=len(reported),
        assumptions=spec["assumptions"],
        coverage=dict(
            evaluations=runs,
            distinct_nontrivial=len(sigs),
            rule=spec["rule"],
            samples=[json.dumps(s)[:1500] for s in samples[:2]],
            seeds=dict(first=base, runs_planned=planned, chunks_not_run=skipped),
            runs_per_hour=int(runs / max(wall, 1e-9) * 3600),
            simulated_steps=steps,
            steps_measure="source lines of torch_struct executed under the scheduler",
            judged_answers=stats.get("judged", 0),
            faults_and_events={
                k: v for k, v in sorted(stats.items()) if k not in ("steps", "judged")
            },
            event_log_digest=hashlib.sha256(repr(digests).encode()).hexdigest(),
            real=spec["real"],
            stub=spec["stub"],
            **extra,
        ),
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for f in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    print(
        "%s: %d runs, %d distinct, %d judged answers, %d steps, %.1f s"
        % (prop, runs, len(sigs), stats.get("judged", 0), steps, wall)
    )
    for path, v in reported:
        print("  %s: %s" % v)
        print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()
    if reported:
        return 1
    if runs < planned * 0.25:
        print("ERROR: only %d of %d runs fitted into the time cap" % (runs, planned))
        return 3
    probes = [p for p in spec.get("probes", ()) if not stats.get(p)]
    if probes and runs >= 500 and not all(p.startswith("adversary") for p in probes):
        print("ERROR: never reached: %s" % ", ".join(probes))
        return 3
    return 0


def report(prop, seed, tier, v, plans):
    small, tried = minimise(plans, v[0], 60)
    v2, _ = try_case(small, None if v[0] == "timeout" else 120)
    if v2 and v2[0] == "timeout" != v[0]:
        v2 = v
    path = os.path.join(HERE, "replays", "%s-%d.json" % (prop, seed))
    os.makedirs(os.path.dirname(path), exist_ok=True)
    rec = dict(
        property=prop,
        seed=seed,
        run_seed=plans[-1]["seed"],
        tier=tier,
        violation=list(v2 or v),
        original_violation=list(v),
        minimised_with=tried,
        plans=small if v2 else plans,
        original_runs=len(plans),
    )
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    p = None
    try:
        p = subprocess.run(
            [sys.executable, os.path.join(HERE, "replay.py"), path],
            capture_output=True,
            text=True,
            timeout=150,
            env=dict(os.environ, PYTHONHASHSEED="1"),
        )
    except subprocess.TimeoutExpired:
        print("note: the replay in a fresh process was not waited for")
    rec["replayed_in_fresh_process"] = p is not None and p.returncode == 1
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    if p is not None and p.returncode != 1:
        print("note: the minimised case did not fail again in a fresh process")
        print(p.stdout[-500:], p.stderr[-500:])
    return path, (v2 or v)


def main(prop):
    try:
        return check(prop)
    except K.HarnessError as e:
        print("ERROR (harness): %s" % e)
        return 2
    except BaseException:
        traceback.print_exc()
        return 2
