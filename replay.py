"""python replay.py replays/C01-1.json -- run a recorded case again.

Exit 1 and the violation if it fails the same way, 0 if it does not."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")

if __name__ == "__main__":
    from sim import runner

    with open(sys.argv[1]) as f:
        rec = json.load(f)
    runner.boot()
    v, j = runner.try_case(rec["plans"])
    print("recorded: %s" % (rec["violation"],))
    print("now:      %s" % (v,))
    sys.stdout.flush()
    os._exit(1 if v is not None and v[0] == rec["violation"][0] else 0)
