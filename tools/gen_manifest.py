"""Writes MANIFEST.json from the registry and the reasons below."""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from sim import registry  # noqa: E402

NA = {
    "C20": "pure function of its input: conversions hold no state, draw nothing and have no schedule or failure to inject; enumeration or property testing decides it, simulation adds nothing",
    "C21": "pure function of its input: algebraic laws of stateless operations; no schedule, clock, fault or random source takes part",
    "C22": "pure function of its input: a stateless projection; no schedule, clock, fault or random source takes part",
    "C23": "pure function of its input, and the native package its dynamic program needs is not installed in this sandbox, so the code cannot run at all",
    "C24": "pure function of its input: rounding of one stateless computation; needs numerical analysis or input generation, not simulation",
}
NOTE = {
    "C04": "sampled: every judged sample is checked against the enumerated structures; the random source is an adversary bound only by positive probability",
    "C05": "sampled and statistical: false alarms below 1e-8 per test by a two-stage rule; small deviations (below a few percent of one probability) are invisible",
    "C07": "sampled; law part statistical as in C05",
}

ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in registry.PROPS:
        p = registry.PROPS[i]
        cmd = ". /opt/vp/env.sh && python check.py %s" % i
        checks.append(
            dict(
                property=i,
                quick_cmd=cmd,
                thorough_cmd=cmd,
                evidence_file="evidence/%s.json" % i,
                technique=p.get("technique", "deterministic simulation with fault injection, seeded search, exact replay"),
                level=p["level"],
                level_note=NOTE.get(i, "sampled, not exhaustive: every run is judged against an independent enumeration of the structures")
                + ". Trusts: "
                + "; ".join(p["assumptions"]),
            )
        )
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(
    dict(
        version=1,
        setup_cmd="bash /opt/vp/build.sh",
        checks=checks,
        not_applicable=na,
        notes="No hooks in /repo: line events, a tensor dispatch mode and a lock factory are installed from outside at run time. Replay: python replay.py replays/<file>.json (exit 1 = fails again).",
    ),
    open(os.path.join(here, "MANIFEST.json"), "w"),
    indent=1,
)
