"""Development aid: mutate the sources and see which checks notice.  python3 tools/mutate.py N SEED WORKERS OUT [file-regex]

Works in scratch copies of /repo (under /tmp) only.  Not used by any check.
"""
import ast, json, os, random, re, shutil, subprocess, sys, tempfile
from multiprocessing import Pool

PY = "/opt/venv/bin/python"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/mplconfig", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
MAP = [
    ("mixins/continuous", "C01 C04 C05 C03 C11"), ("mixins/alg", "C02 C03 C05 C04 C11"), ("mixins/control", "C02 C03 C05 C04 C11 C12 C20"), ("mixins/param", "C02 C05 C03 C11 C04"),
    ("mixins/base", "C01 C02 C03 C04"), ("modelling/utils", "C01 C06"), ("util/util", "C06 C07 C09 C14"), ("dae_system", "C08 C09 C15"), ("modelling/dataset", "C10 C17"),
    ("simulation_result", "C09 C10 C22"), ("system_model", "C05 C02 C03 C04 C09 C08 C12 C06 C14"), ("modelling/ocp", "C11 C12 C04 C18 C20 C16"), ("network/network", "C20 C21"), ("network/node", "C20 C21"),
    ("optimization/", "C13 C16"), ("collocationscheme", "C14 C16 C17 C18"), ("multipleshooting", "C15 C16 C17 C18"), ("solutionmethodsbase", "C14 C15 C16 C17 C18"), ("discretizationschemebase", "C14 C15 C17 C16"),
    ("optimizationresult", "C17 C19 C21"), ("directmethod", "C14 C15 C18 C16"), ("indirectmethod", "C18 C16"), ("augmented_lagrangian", "C19 C21"), ("bipartite", "C21"), ("distributedaug", "C21"),
    ("intermediary", "C21 C20"), ("distributed_opt", "C21"), ("mpc/plant", "C22 C23"), ("mpc/mpc", "C23"), ("ideal_est", "C23"), ("serializer", "C24"), ("timeout", "C25"),
]
if os.path.exists(os.path.join(V, "mc", "c26.py")):
    MAP += [("estimation/", "C26"), ("stochastic/", "C27 C26"), ("stochastic_ocp", "C27")]
SKIPFN = re.compile(r"^(__repr__|__str__|print|_?plot|.*print.*)$")


def mutants(path, text):
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    raw = text.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    out = []

    def add(n, new, kind):
        a, b = span(n)
        out.append((a, b, new, kind, n.lineno))

    def walk(n, fn, inraise):
        for c in ast.iter_child_nodes(n):
            f2 = fn
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                f2 = fn + [c.name]
                if isinstance(c, ast.FunctionDef) and SKIPFN.match(c.name):
                    continue
            if isinstance(c, (ast.Raise, ast.Assert)):
                continue
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("print", "warn"):
                continue
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "warn":
                continue
            if fn or isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                visit(c)
            walk(c, f2, inraise)

    def visit(c):
        U = ast.unparse
        if isinstance(c, ast.Compare) and len(c.ops) == 1:
            sw = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
            op = sw.get(type(c.ops[0]))
            if op:
                add(c, "%s %s %s" % (U(c.left), op, U(c.comparators[0])), "cmp")
        elif isinstance(c, ast.BinOp):
            sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
            op = sw.get(type(c.op))
            if op:
                add(c, "(%s) %s (%s)" % (U(c.left), op, U(c.right)), "bin")
        elif isinstance(c, ast.Constant) and type(c.value) is int:
            add(c, str(c.value + 1), "const")
        elif isinstance(c, ast.Constant) and type(c.value) is bool:
            add(c, str(not c.value), "bool")
        elif isinstance(c, ast.BoolOp):
            op = " and " if isinstance(c.op, ast.Or) else " or "
            add(c, op.join("(%s)" % U(v) for v in c.values), "boolop")
        elif isinstance(c, ast.UnaryOp) and isinstance(c.op, (ast.USub, ast.Not)):
            add(c, "(%s)" % U(c.operand), "unary")
        elif isinstance(c, ast.Call):
            if len(c.args) >= 2 and not any(isinstance(a, ast.Starred) for a in c.args):
                n = ast.Call(func=c.func, args=[c.args[1], c.args[0]] + c.args[2:], keywords=c.keywords)
                add(c, U(n), "swap")
            for i, k in enumerate(c.keywords):
                if k.arg:
                    n = ast.Call(func=c.func, args=c.args, keywords=c.keywords[:i] + c.keywords[i + 1:])
                    add(c, U(n), "dropkw")
        elif isinstance(c, ast.Expr) and isinstance(c.value, ast.Call):
            add(c, "pass", "dropstmt")
        elif isinstance(c, ast.AugAssign):
            add(c, "%s = %s" % (U(c.target), U(c.value)), "aug")
        elif isinstance(c, ast.Assign) and isinstance(c.targets[0], ast.Attribute) and isinstance(c.value, ast.Call):
            add(c, "pass", "dropassign")
        elif isinstance(c, ast.If):
            add(c.test, "not (%s)" % U(c.test), "ifnot")
        elif isinstance(c, ast.Dict) and len(c.values) >= 2:
            pass

    walk(tree, [], False)
    seen, res = set(), []
    for a, b, new, kind, ln in out:
        t = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            if ast.dump(ast.parse(t)) == ast.dump(tree) or t in seen:
                continue
        except SyntaxError:
            continue
        seen.add(t)
        res.append((path, ln, kind, raw[a:b].decode()[:80], new[:80], t))
    return res


def tests(root):
    out = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "--deselect-none"] if False else
                         [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60", "tests"], cwd=root, env=dict(ENV, PYTHONPATH=root), capture_output=True, text=True, timeout=300).stdout
    return sorted(l.split()[1] for l in out.splitlines() if l.startswith(("FAILED", "ERROR")))


BASE = None


def init():
    global ROOT, BASE
    ROOT = tempfile.mkdtemp(prefix="mut_")
    subprocess.run(["cp", "-a", "/repo/.", ROOT])
    BASE = tests(ROOT)


def one(m):
    path, ln, kind, old, new, t = m
    f = os.path.join(ROOT, path)
    orig = open(f).read()
    r = dict(path=path, line=ln, kind=kind, old=old, new=new)
    try:
        open(f, "w").write(t)
        try:
            if tests(ROOT) != BASE:
                r["res"] = "tests"
                return r
        except subprocess.TimeoutExpired:
            r["res"] = "tests-timeout"
            return r
        props = next(p for k, p in MAP if k in path).split()
        for p in props:
            try:
                c = subprocess.run(["./run", p], cwd=V, env=dict(ENV, VERIF_REPO=ROOT, VERIF_EVIDENCE=ROOT + "_ev", VERIF_FAILFAST="1", VERIF_JOBS="2"), capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                r.setdefault("slow", []).append(p)
                continue
            if c.returncode != 0:
                r["res"] = "caught " + p
                r["how"] = (c.stdout or c.stderr).strip().splitlines()[-1][:200] if (c.stdout or c.stderr).strip() else ""
                return r
        r["res"] = "SURVIVED"
        return r
    except Exception as e:
        r["res"] = "error %r" % e
        return r
    finally:
        open(f, "w").write(orig)


def main():
    n, seed, workers, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    rx = re.compile(sys.argv[5] if len(sys.argv) > 5 else ".")
    ms = []
    for d, _, fs in os.walk("/repo/yaocptool"):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), "/repo")
            if f.endswith(".py") and rx.search(p) and any(k in p for k, _ in MAP):
                ms += mutants(p, open(os.path.join(d, f)).read())
    random.Random(seed).shuffle(ms)
    print(len(ms), "mutants in all", flush=True)
    with Pool(workers, init) as pool, open(out, "a") as o:
        for r in pool.imap_unordered(one, ms[:n]):
            o.write(json.dumps(r) + "\n")
            o.flush()
    for d in os.listdir("/tmp"):
        if d.startswith("mut_"):
            shutil.rmtree(os.path.join("/tmp", d), ignore_errors=True)


main()
