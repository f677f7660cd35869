"""C06: finding, looking up and removing variables is exact."""
import itertools
import re

from . import core, model_ref as mr
from .core import require

NAMES = ["x", "x_1", "xx", "foo", "food", "y"]


def vec_of(syms):
    import casadi as ca

    return ca.vertcat(*syms) if syms else ca.SX(0, 1)


def hashes(v):
    return [s.element_hash() for s in v.nz]


def run_find(sc, tr):
    """(vector as indices into a symbol pool, variable as indices into it)"""
    vector, var, holes = sc
    import casadi as ca
    from yaocptool import find_variables_indices_in_vector, remove_variables_from_vector

    # pool: two distinct symbols share a name; identity, not the name, decides
    pool = [ca.SX.sym("a"), ca.SX.sym("a"), ca.SX.sym("b"), ca.SX.sym("c")]
    v, w = vec_of([pool[i] for i in vector]), vec_of([pool[i] for i in var])
    if holes:
        # structural zeros before and between the entries count as positions
        v = ca.SX(2 * len(vector), 1)
        for k, i in enumerate(vector):
            v[2 * k + 1] = pool[i]
        got = find_variables_indices_in_vector(w, v)
        exp = [2 * k + 1 for i in var for k, j in enumerate(vector) if i == j]
        require(list(got) == exp, "find-indices-sparse", lambda: "%s in %s -> %s, expected %s" % (var, v, got, exp))
        if exp:
            r = remove_variables_from_vector(w, v)
            left = [pool[j].element_hash() for j in vector if j not in var]
            require(hashes(r) == left and r.numel() == v.numel() - len(set(exp)), "remove-sparse", lambda: "%s minus %s -> %s" % (v, var, r))
        tr.step(2)
        tr.state(sc)
        return
    exp = [k for i in var for k, j in enumerate(vector) if i == j]
    got = find_variables_indices_in_vector(w, v)
    require(list(got) == exp, "find-indices", lambda: "%s in %s -> %s, expected %s" % (var, vector, got, exp))
    try:
        r = remove_variables_from_vector(w, v)
        require(exp, "remove-not-refused", "removed nothing without complaint")
        left = [pool[j].element_hash() for j in vector if j not in var]
        require(hashes(r) == left, "remove", lambda: "%s minus %s -> %s" % (vector, var, r))
        require(r.numel() > 0 or r.shape == (0, 1), "remove-shape", "%s" % (r.shape,))
    except ValueError:
        require(not exp, "remove-refused", lambda: "%s minus %s refused" % (vector, var))
    require([pool[j].element_hash() for j in vector] == hashes(v), "argument-mutated", "")
    tr.step(2)
    tr.state(sc)


def run_idx(sc, tr):
    kind, n, idx = sc
    import casadi as ca
    from yaocptool import remove_variables_from_vector_by_indices

    if kind == "SX":
        v = ca.SX.sym("s", n)
    elif kind == "MX":
        v = ca.MX.sym("s", n)
    else:
        v = ca.DM([float(i) for i in range(n)]) if n else ca.DM(0, 1)
    ok = all(-n <= i < n for i in idx)
    given = list(idx)
    try:
        r = remove_variables_from_vector_by_indices(given, v)
    except (ValueError, RuntimeError, IndexError):
        require(not ok, "by-index-refused", "%s" % (sc,))
        tr.step()
        tr.state(sc)
        return
    require(ok, "by-index-not-refused", "%s -> %s" % (sc, r))
    require(given == list(idx), "argument-mutated", "")
    left = [i for i in range(n) if i not in idx and i - n not in idx]
    require(r.numel() == len(left), "by-index", lambda: "%s -> %s" % (sc, r))
    if left:
        val = ca.Function("f", [v], [r])(list(range(n))) if kind != "DM" else r
        require([float(q) for q in ca.DM(val).full().ravel()] == [float(i) for i in left], "by-index", lambda: "%s -> %s" % (sc, val))
    else:
        require(r.shape == (0, 1), "by-index-shape", "%s" % (r.shape,))
    tr.step()
    tr.state(sc)


def run_name(sc, tr):
    vector, names, exact = sc
    import casadi as ca
    from yaocptool import find_variables_in_vector_by_name

    for cls in (ca.SX, ca.MX):
        syms = [cls.sym(NAMES[i]) for i in vector]
        v = ca.vertcat(*syms) if syms else cls(0, 1)
        if cls is ca.MX and len(syms) != 1:
            continue  # element names only exist for scalar MX symbols
        arg = names[0] if len(names) == 1 else list(names)
        got = find_variables_in_vector_by_name(arg, v, exact=exact)
        exp = [i for q in names for i in range(len(vector))
               if (NAMES[vector[i]] == q if exact else re.match(q, NAMES[vector[i]]))]
        require(len(got) == len(exp), "by-name-count", lambda: "%s -> %s" % (sc, got))
        for g, i in zip(got, exp):
            require(ca.is_equal(g, v[i]), "by-name", lambda: "%s -> %s" % (sc, got))
        tr.step()
    tr.state(sc)


MODELS = [
    ("create_x_2", "create_y_1", "create_u_1", "create_p_2", "create_theta_1"),
    ("create_u_2", "create_x_1", "parametrize_affine", "create_y_2"),
    ("create_x_2", "create_u_2", "create_y_2", "connect_plain", "remove_x_first"),
    ("create_theta_2", "create_p_1", "remove_theta_first", "create_u_1", "create_x_1", "remove_u_first"),
]


def run_model(sc, tr):
    mi, types = sc[:2]
    env = mr.Env()
    env.one_name = sc[2] if len(sc) > 2 else None
    m, env, ref = mr.build_model(MODELS[mi], env=env)
    classes = {k: getattr(ref, k) for k in ("x", "y", "u", "p", "theta")}
    live = set(sum(classes.values(), [])) | set(ref.u_par)
    for t, s in env.sym.items():
        require(bool(m.has_variable(s)) == (t in live), "has_variable", "%s (token %d)" % (s, t))
        tr.step()
    order = types if types else ["x", "y", "u", "p", "theta"]
    cand = [t for k in order for t in classes[k]]
    vt = None if not types else (types[0] if len(types) == 1 else list(types))
    all_names = sorted({env.sym[t].name() for t in env.sym})
    queries = [re.escape(n) + "$" for n in all_names] + ["x", "u", "y", "p", "theta", "nothing", ".*", "[xu]", ""]
    for q in queries:
        exp = [t for t in cand if re.match(q, env.sym[t].name())]
        got = m.get_variables_by_names(q, vt)
        require([env.tok[g.element_hash()] for g in got] == exp, "get_variables_by_names", lambda: "%r in %s -> %s" % (q, types, got))
        try:
            g = m.get_variable_by_name(q, vt)
            require(len(exp) == 1 and env.tok[g.element_hash()] == exp[0], "get_variable_by_name", lambda: "%r -> %s, candidates %s" % (q, g, exp))
        except ValueError:
            require(len(exp) != 1, "get_variable_by_name-refused", lambda: "%r refused, candidates %s" % (q, exp))
        tr.step(2)
    two = [".*_0$", "x"]
    exp = [t for k in order for q in two for t in classes[k] if re.match(q, env.sym[t].name())]
    got = m.get_variables_by_names(two, vt)
    require([env.tok[g.element_hash()] for g in got] == exp, "get_variables_by_names-list", lambda: "%s -> %s" % (two, got))
    tr.state(sc)


def build(tier):
    import yaocptool.modelling  # noqa: F401

    L = 4 if tier == "quick" else 5
    find = [(v, w, holes) for holes in (False, True) for n in range(L) for v in itertools.product(range(4), repeat=n)
            for k in range(4) for w in itertools.product(range(4), repeat=k)]
    idx = [(kind, n, ix) for kind in ("SX", "MX", "DM") for n in range(1, L) for k in range(0, 4)
           for ix in itertools.product(range(-n - 1, n + 2), repeat=k)]
    pats = ["x", "xx", "foo", "food", "x_", "fo+d?$", ".", "nothing", "o"]
    name = [(v, q, ex) for n in range(4) for v in itertools.product(range(len(NAMES)), repeat=n)
            for k in (1, 2) for q in itertools.permutations(pats, k) for ex in (False, True)
            if n < 3 or k == 1]
    types = [()] + [(t,) for t in ("x", "y", "u", "p", "theta")] + list(itertools.permutations(("x", "y", "u", "p", "theta"), 2))
    model = [(i, t) for i in range(len(MODELS)) for t in types]
    model += [(i, t, "v") for i in range(len(MODELS)) for t in types]
    return [core.Suite("find-remove", find, run_find), core.Suite("by-index", idx, run_idx),
            core.Suite("by-name", name, run_name), core.Suite("model-lookup", model, run_model)]


if __name__ == "__main__":
    core.main("C06", build,
              {"quick": "all vectors up to length 3 over 4 symbols x all selections up to 3, dense and with structural zeros between; all index lists up to 3 over [-n-1, n+1] for n<=3 in SX/MX/DM; all name vectors up to length 3 x all patterns/pairs; 4 models (with distinct names and with one name for all variables) x 26 type filters x all names",
               "thorough": "the same, one longer"})
