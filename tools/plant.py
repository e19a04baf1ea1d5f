#!/opt/venv/bin/python
"""Plant a bug in a scratch copy, confirm it, and keep it under /verif/seeded.

usage: plant.py SPEC.py   (SPEC defines ID, PROP, EDITS=[(file, old, new)], DEMO, NEEDS, BREAKS[, EXTRA])
DEMO is the body of demo.py, run with cwd = repository.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1")
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=isinstance(cmd, str), capture_output=True, text=True, **k)


def main(spec):
    s = runpy.run_path(spec)
    scratch = f"/tmp/plant_{s['ID']}"
    shutil.rmtree(scratch, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", scratch], check=True)
    try:
        sh("git checkout -q -- .", scratch)
        for fn, old, new, *which in s["EDITS"]:
            p = os.path.join(scratch, fn)
            t = open(p).read()
            parts = t.split(old)
            k = which[0] if which else 0
            assert len(parts) == 2 or (which and k < len(parts) - 1), (fn, t.count(old), old)
            open(p, "w").write(old.join(parts[:k + 1]) + new + old.join(parts[k + 1:]))
        diff = sh("git diff", scratch).stdout
        assert diff
        out = os.path.join("/verif/seeded", s["ID"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\n" + s["DEMO"])
        open(os.path.join(out, "demo.sh"), "w").write(s.get("DEMO_SH", DEMO_SH))
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        a = sh(["bash", os.path.join(out, "demo.sh")], "/repo")
        b = sh(["bash", os.path.join(out, "demo.sh")], scratch)
        print("demo clean", a.returncode, (a.stdout + a.stderr)[-600:])
        print("demo patched", b.returncode, (b.stdout + b.stderr)[-300:])
        ok = a.returncode == 0 and b.returncode != 0
        if not s.get("RUST"):
            t = sh(f"{PY} -m pytest -q -x -p no:cacheprovider -n 4 --timeout=300 test/test_utils.py test/test_parameters.py "
                   "test/test_phase_space.py test/test_relic_density.py test/test_core_constants.py hazma", scratch)
            print(t.stdout[-200:])
            ok = ok and t.returncode == 0
        else:
            w = scratch + "_rust"
            pure = open("/opt/vp/support/rust_pure.py").read().replace("/repo/", scratch + "/")
            open(scratch + "_pure.py", "w").write(pure)
            u = sh(f"mkdir -p {w}; {PY} {scratch}_pure.py {w} && rustc --edition 2024 --test --crate-name _core -A dead_code "
                   f"{w}/lib.rs -o {w}/t && cd rust && {w}/t --color never | grep -E 'FAILED|test result'; rm -r {w} {scratch}_pure.py", scratch)
            print((u.stdout + u.stderr)[-400:])
            ok = ok and ": ok. " in u.stdout
        c = subprocess.run([PY, "/verif/run.py", s["PROP"]], env=dict(ENV, VF_REPO=scratch), cwd="/verif",
                           capture_output=True, text=True)
        print("check rc", c.returncode)
        print("\n".join(l[:300] for l in c.stdout.splitlines()[-6:]))
        print("KEPT" if ok else "*** NOT VALID", "| CAUGHT" if c.returncode == 1 and f"VIOLATION property={s['PROP']} " in c.stdout else "| MISSED", s["ID"])
        if not ok:
            shutil.rmtree(out)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


for f in sys.argv[1:]:
    main(f)
