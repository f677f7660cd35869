"""Development aid: python3 tools/battery.py SPEC.py [first last] -- quick look at many hand-written changes.

SPEC defines B = [("C05 C04", [(file, old, new), ...]), ...].  Scratch copies only; not used by any check.
"""
import os, shutil, subprocess, sys, tempfile
from multiprocessing import Pool

PY = "/opt/venv/bin/python"
SRC = os.environ.get("BATTERY_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/mplconfig", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def tests(root):
    out = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60", "tests"], cwd=root, env=dict(ENV, PYTHONPATH=root), capture_output=True, text=True).stdout
    return sorted(l.split()[1] for l in out.splitlines() if l.startswith(("FAILED", "ERROR")))


def one(a):
    i, (props, edits) = a
    root = tempfile.mkdtemp(prefix="bat_")
    try:
        subprocess.run(["cp", "-a", SRC + "/.", root])
        for f, old, new in edits:
            t = open(os.path.join(root, f)).read()
            if t.count(old) != 1:
                return i, props, "BAD EDIT %s: %d x %r" % (f, t.count(old), old[:60])
            open(os.path.join(root, f), "w").write(t.replace(old, new))
        extra = [x for x in tests(root) if x not in BASE]
        note = "  [tests notice: %s]" % extra[:2] if extra else ""
        miss = []
        for p in props.split():
            c = subprocess.run(["./run", p], cwd=V, env=dict(ENV, VERIF_REPO=root, VERIF_EVIDENCE=root + "_ev", VERIF_FAILFAST="1", VERIF_JOBS="2"), capture_output=True, text=True)
            if c.returncode == 1:
                how = [l for l in c.stdout.splitlines() if "key=" in l]
                return i, props, "caught %s%s%s %s" % (p, " (not by %s)" % miss if miss else "", note, how[0].strip()[:150] if how else "")
            if c.returncode:
                return i, props, "ERROR rc=%d %s" % (c.returncode, (c.stdout + c.stderr)[-300:])
            miss.append(p)
        return i, props, "MISSED" + note
    finally:
        shutil.rmtree(root, ignore_errors=True)
        shutil.rmtree(root + "_ev", ignore_errors=True)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    B = list(enumerate(ns["B"]))
    if len(sys.argv) > 2:
        B = [b for b in B if str(b[0]) in sys.argv[2:]]
    BASE = tests(SRC)
    with Pool(4) as p:
        for i, props, r in p.imap_unordered(one, B):
            print("%3d %-10s %s" % (i, props, r), flush=True)
