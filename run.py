#!/opt/venv/bin/python
"""Run one property's check: run.py P01 [--tier quick|thorough] [--replay FILE]."""
import os
import sys

sys.dont_write_bytecode = True
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
if not os.environ.get("VF_NOEXEC") and (os.environ.get("PYTHONHASHSEED") != "0" or not sys.executable.startswith("/opt/venv/")):
    os.environ["VF_NOEXEC"] = "1"
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)

if sys.argv[1:] == ["--setup"]:
    # nothing to build: the encoding is regenerated from /repo on every run
    from vf import load
    load.setup("/repo")
    import z3
    s = z3.Solver()
    s.add(z3.Real("x") ** 2 < 0)
    sys.exit(0 if s.check() == z3.unsat else 1)

from vf.runner import main  # noqa: E402

if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
