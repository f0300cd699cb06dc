"""python check.py C01 -- decide one property.  See DESIGN.md."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")

if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") is None:
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    from sim import runner

    code = runner.main(sys.argv[1])
    sys.stdout.flush()
    os._exit(code)
