#!/opt/venv/bin/python
"""mutate_rs.py PROP N SEED WORK file ...: random small changes of Rust sources (non-test part); which does the check miss?"""
import os
import random
import re
import shutil
import subprocess
import sys

OPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" < ", " > "), (r" > ", " < "), (r" \|\| ", " && "),
       (r"\b(\d+\.\d+)\b", None), (r"mul_add\(-", "mul_add("), (r"\+= ", "-= "), (r"\*= ", "/= ")]


def pool_of(path, f):
    t = open(os.path.join(path, f)).read().split("#[cfg(test)]")[0]
    out, pos = [], 0
    for line in t.splitlines(keepends=True):
        code = line.split("//")[0]
        if code.strip() and not code.strip().startswith(("#", "use ", "assert")):
            for pat, rep in OPS:
                for m in re.finditer(pat, code):
                    r = rep if rep is not None else repr(float(m[1]) * 1.5 + 0.25)
                    out.append((f, pos + m.start(), pos + m.end(), r))
            names = re.findall(r"\(([a-z]\w*(?:, [a-z]\w*)+)\)", code)
            for g in names:
                a = g.split(", ")
                for i in range(len(a) - 1):
                    b = a[:]
                    b[i], b[i + 1] = b[i + 1], b[i]
                    k = code.index("(" + g + ")") + 1
                    out.append((f, pos + k, pos + k + len(g), ", ".join(b)))
        pos += len(line)
    return out


def main():
    prop, n, seed, work = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    shutil.copytree("/repo/rust", work + "/rust", ignore=shutil.ignore_patterns("target"))
    shutil.copytree("/repo/hazma", work + "/hazma", symlinks=True)
    shutil.copytree("/verif", work + "/v", ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence"))
    pool = [x for f in sys.argv[5:] for x in pool_of("/repo", f)]
    random.Random(seed).shuffle(pool)
    print(f"{prop}: {len(pool)} mutants", flush=True)
    alive = done = 0
    for f, a, b, r in pool:
        if done >= n:
            break
        src = open(os.path.join("/repo", f)).read()
        new = src[:a] + r + src[b:]
        open(os.path.join(work, f), "w").write(new)
        k = src.count("\n", 0, a)
        desc = f"{f} L{k + 1}: {src.splitlines()[k].strip()[:80]} => {new.splitlines()[k].strip()[:80]}"
        try:
            p = subprocess.run(["./run.py", prop], cwd=work + "/v", env=dict(os.environ, VF_REPO=work, VF_FAILFAST="1"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
            rc, last = p.returncode, (p.stdout.strip().splitlines() or [""])[-1]
        except subprocess.TimeoutExpired:
            rc, last = "timeout", ""
        open(os.path.join(work, f), "w").write(src)
        if rc == 1 and "VIOLATION" in p.stdout:
            print("killed  ", prop, desc, flush=True)
        elif rc not in (0, "timeout") and "error" in p.stdout:
            print("invalid ", prop, desc, flush=True)
            continue
        else:
            alive += 1
            print("SURVIVED", prop, desc, f"rc={rc}", last[-80:], flush=True)
        done += 1
    print(f"{prop}: {alive} of {done} survived", flush=True)
    shutil.rmtree(work, ignore_errors=True)


main()
