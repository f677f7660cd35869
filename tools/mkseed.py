"""Make and confirm a planted bug: python3 tools/mkseed.py SPEC.py  (SPEC defines SEEDS, a list of dicts).

Each dict: id, property, needs, breaks, edits=[(file, old, new)], demo (python text; raises when broken).
Everything happens in a scratch copy of /repo under /tmp, which is removed afterwards.
"""
import json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/mplconfig", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
DEMO_SH = """#!/bin/bash
# exit 0: behaves as the property says; nonzero: broken.  Run with cwd at the repository.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR="${MPLCONFIGDIR:-/opt/mplconfig}"
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def tests(root):
    env = dict(ENV, PYTHONPATH=root)
    out = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "tests"], cwd=root, env=env, capture_output=True, text=True).stdout
    failed = sorted(l.split()[1] for l in out.splitlines() if l.startswith("FAILED"))
    return failed, out.strip().splitlines()[-1]


def main(spec, only=None):
    ns = {}
    exec(open(spec).read(), ns)
    base = None
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        root = "/tmp/seedwork_%d" % os.getpid()
        shutil.rmtree(root, ignore_errors=True)
        shutil.copytree("/repo", root, symlinks=True)
        d = os.path.join(V, "seeded", s["id"])
        try:
            if base is None:
                base = tests(root)[0]
            os.makedirs(d, exist_ok=True)
            open(d + "/demo.sh", "w").write(DEMO_SH)
            os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo.py", "w").write(s["demo"].lstrip())
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            r0 = subprocess.run(["bash", d + "/demo.sh"], cwd=root, env=ENV, capture_output=True, text=True)
            for f, a, b in s["edits"]:
                t = open(os.path.join(root, f)).read()
                assert t.count(a) == 1, (s["id"], f, t.count(a), a)
                open(os.path.join(root, f), "w").write(t.replace(a, b))
            diff = subprocess.run(["git", "diff"], cwd=root, capture_output=True, text=True).stdout
            open(d + "/patch.diff", "w").write(diff)
            removed = []
            for h in diff.splitlines():
                if h.startswith("--- a/"):
                    cur = h[6:]
                m = __import__("re").match(r"@@ -(\d+)", h)
                if m:
                    n = int(m.group(1)) - 1
                elif h[:1] == " " or (h[:1] == "-" and not h.startswith("---")):
                    n += 1
                    if h[:1] == "-":
                        removed.append((cur, n))
            orig = [subprocess.run(["git", "blame", "-s", "-L", "%d,%d" % (l, l), "--", f], cwd="/repo", capture_output=True, text=True).stdout.startswith("^") for f, l in removed]
            if not removed or not all(orig):
                print("   WARNING: changes lines that are not of the original repository", removed, orig)
            f1, line = tests(root)
            r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=root, env=ENV, capture_output=True, text=True)
            ok = r0.returncode == 0 and r1.returncode != 0 and f1 == base
            c = subprocess.run(["./run", s["property"]], cwd=V, env=dict(ENV, VERIF_REPO=root, VERIF_EVIDENCE="/tmp/seed_ev"), capture_output=True, text=True)
            caught = c.returncode == 1 and ("VIOLATION property=%s" % s["property"]) in c.stdout
            print("%-28s valid=%s (demo %d->%d, tests same=%s) caught=%s rc=%d" % (s["id"], ok, r0.returncode, r1.returncode, f1 == base, caught, c.returncode), flush=True)
            if r0.returncode:
                print(r0.stderr[-1500:])
            if r1.returncode == 0:
                print("demo did not notice")
            if f1 != base:
                print("  tests:", [x for x in f1 if x not in base][:5])
            if caught:
                print("   ", [l for l in c.stdout.splitlines() if "VIOLATION" in l or "key=" in l][:2])
        finally:
            shutil.rmtree(root, ignore_errors=True)
            shutil.rmtree("/tmp/seed_ev", ignore_errors=True)


main(sys.argv[1], sys.argv[2:])
