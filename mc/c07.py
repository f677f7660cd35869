"""C07: piecewise (theta) data, polynomial parametrisations and time maps are exact."""
import itertools
import math

from . import core
from .core import require
from .sym import close


def vals(x):
    import casadi as ca

    return [float(v) for v in ca.vec(ca.DM(x)).full().ravel()]


# ------------------------------------------------------------------ join_thetas
SHAPES = [None, {}, {0: 1, 1: 1}, {0: 2, 1: 2}, {0: 1, 1: 2}, {1: 1, 0: 2}, {0: 1}, {0: 1, 1: 1, 2: 1}, {1: 1, 2: 1}, {0: 0, 1: 0}, {k: 1 + k % 2 for k in range(12)}, {k: 12 for k in reversed(range(12))}]


def run_join(sc, tr):
    import casadi as ca
    from yaocptool import join_thetas

    thetas = []
    for a, s in enumerate(sc):
        sh = SHAPES[s]
        thetas.append(None if sh is None else {k: ca.DM([100 * (a + 1) + 10 * k + i for i in range(n)]) if n else ca.DM(0, 1) for k, n in sh.items()})
    before = [None if t is None else {k: vals(v) for k, v in t.items()} for t in thetas]
    full = [t for t in thetas if t]
    ok = all(set(t) == set(full[0]) for t in full)
    try:
        r = join_thetas(*thetas)
    except ValueError:
        require(not ok, "join-refused", "%s" % (sc,))
        tr.step()
        tr.state(sc)
        return
    require(ok, "join-not-refused", "keys differ: %s" % ([SHAPES[s] for s in sc],))
    keys = set(full[0]) if full else set()
    require(set(r) == keys, "join-keys", "%s" % (r,))
    for k in keys:
        exp = [v for t in full for v in vals(t[k])]
        require(vals(r[k]) == exp, "join-values", lambda: "element %s: %s, expected %s" % (k, r[k], exp))
    after = [None if t is None else {k: vals(v) for k, v in t.items()} for t in thetas]
    require(before == after, "join-mutates", "")
    tr.step()
    tr.state(sc)


def run_const(sc, tr):
    import casadi as ca
    from yaocptool import create_constant_theta

    c, dim, n = sc
    cc = c if not isinstance(c, list) else ca.DM(c)
    th = create_constant_theta(c if not isinstance(c, str) else float(c), dim, n)
    size = dim if isinstance(dim, int) else dim[0] * dim[1]
    require(sorted(th) == list(range(n)), "const-keys", "%s" % th)
    for k in range(n):
        require(th[k].shape == (size, 1) and vals(th[k]) == [float(cc)] * size, "const-values", "%s" % th[k])
    # one element changed leaves the others alone
    if n > 1 and size:
        th[0][0] = 99
        require(vals(th[1]) == [float(cc)] * size, "const-aliased", "elements share storage")
    tr.step()
    tr.state(sc)


# ------------------------------------------------------------------ polynomials
def run_poly(sc, tr):
    size, degree, zero, named = sc
    import casadi as ca
    from yaocptool import create_polynomial_approximation

    tau = ca.SX.sym("tau")
    name = ["n%d" % i for i in range(size)] if named else "v"
    pol, par = create_polynomial_approximation(tau, size, degree, name=name, point_at_zero=zero)
    pts = ca.collocation_points(degree, "radau")
    nodes = ([0.0] if zero and degree > 1 else []) + pts
    npar = len(nodes)
    require(par.numel() == size * npar, "poly-par-count", "%s" % (par.shape,))
    require(pol.numel() == size, "poly-size", "%s" % (pol.shape,))
    if size == 0:
        tr.step()
        tr.state(sc)
        return
    require(len({s.element_hash() for s in par.nz}) == par.numel(), "poly-par-distinct", "")
    f = ca.Function("f", [tau, par], [pol])
    if degree == 1:
        for tv in (0.0, 0.3, 1.0):
            pv = [1.5 + i for i in range(size)]
            require(vals(f(tv, pv)) == pv, "poly-constant", "")
            tr.step()
        tr.state(sc)
        return
    # interpolation at every node, one unit parameter at a time
    for j in range(npar):
        for s in range(size):
            pv = [0.0] * (size * npar)
            pv[j * size + s] = 1.0
            for q, tq in enumerate(nodes):
                exp = [1.0 if (r == s and q == j) else 0.0 for r in range(size)]
                got = vals(f(tq, pv))
                require(all(close(a, b, 1e-8) for a, b in zip(got, exp)), "poly-node", lambda: "node %d: %s expected %s" % (q, got, exp))
                tr.step()
    # reproduces every monomial up to its degree
    for d in range(npar):
        pv = []
        for tq in nodes:
            pv += [(s + 1) * tq ** d for s in range(size)]
        for tv in (0.0, 0.17, 0.5, 0.91, 1.0):
            got = vals(f(tv, pv))
            require(all(close(a, (s + 1) * (tv ** d), 1e-7) for s, a in enumerate(got)), "poly-reproduce", lambda: "tau^%d at %s: %s" % (d, tv, got))
            tr.step()
    tr.state(sc)


# ------------------------------------------------------------------ time maps
def run_time(sc, tr):
    tk, h, which = sc
    import casadi as ca
    from yaocptool import convert_expr_from_tau_to_time
    from yaocptool.modelling import SystemModel

    m = SystemModel()
    z = ca.SX.sym("z")
    e = ca.vertcat(m.tau ** 2 + 3 * z, m.t * z + 1, m.tau * m.t)
    t1 = tk + h
    for i, s in enumerate((0.0, 0.25, 1.0)):
        tv = tk + s * h
        if which == "util":
            g = convert_expr_from_tau_to_time(e, m.t, m.tau, tk, t1)
        elif which == "model":
            g = m.convert_expr_from_tau_to_time(e, tk, t1)
        else:
            g = m.convert_expr_from_time_to_tau(e, tk, t1)
        if which == "back":
            require(not ca.depends_on(g, m.t), "time-map-incomplete", "%s" % g)
            got = vals(ca.Function("f", [m.tau, z], [g])(s, 2.0))
        else:
            require(not ca.depends_on(g, m.tau), "time-map-incomplete", "%s" % g)
            got = vals(ca.Function("f", [m.t, z], [g])(tv, 2.0))
        exp = [s ** 2 + 6, tv * 2 + 1, s * tv]
        require(all(close(a, b, 1e-9) for a, b in zip(got, exp)), "time-map", lambda: "%s at tau=%s: %s expected %s" % (sc, s, got, exp))
        tr.step()
    tr.state(sc)


# ------------------------------------------------------------------ relations
def run_rel(sc, tr):
    cls, kind = sc
    import casadi as ca
    from yaocptool import is_equality, is_inequality

    C = getattr(ca, cls)
    x, y = C.sym("x"), C.sym("y")
    e = {
        "le": x <= y, "lt": x < y, "ge": x >= y, "gt": x > y, "le0": x <= 1, "lt0": x < 1, "ge0": 2 * x >= 1, "gt0": x * y > 3,
        "eq": x == y, "eq0": x == 2, "plus": x + y, "ne": x != y, "sym": x, "mul": x * y, "const": C(3), "and": ca.logic_and(x, y),
        "not": ca.logic_not(x),
    }[kind]
    require(bool(is_inequality(e)) == (kind[:2] in ("le", "lt", "ge", "gt")), "is_inequality", "%s: %s" % (sc, e))
    require(bool(is_equality(e)) == (kind[:2] == "eq"), "is_equality", "%s: %s" % (sc, e))
    for other in (1, 2.0, None, "x", [1]):
        require(not is_inequality(other) and not is_equality(other), "relation-of-non-expression", "%r" % (other,))
    tr.step(2)
    tr.state(sc)


# ------------------------------------------------------------------ expm
def ref_expm(a):
    n = len(a)

    def mul(p, q):
        return [[math.fsum(p[i][k] * q[k][j] for k in range(n)) for j in range(n)] for i in range(n)]

    s = 10
    b = [[v / 2 ** s for v in r] for r in a]
    out = [[float(i == j) for j in range(n)] for i in range(n)]
    term = [r[:] for r in out]
    for k in range(1, 12):
        term = [[v / k for v in r] for r in mul(term, b)]
        out = [[out[i][j] + term[i][j] for j in range(n)] for i in range(n)]
    for _ in range(s):
        out = mul(out, out)
    return out


def run_expm(sc, tr):
    import casadi as ca
    from yaocptool import expm

    a = [list(r) for r in sc]
    n = len(a)
    A = ca.DM(a)
    got = expm(A)
    exp = ref_expm(a)
    require(got.shape == (n, n), "expm-shape", "%s" % (got.shape,))
    for i in range(n):
        for j in range(n):
            require(abs(float(got[i, j]) - exp[i][j]) < 2e-4 * (1 + abs(exp[i][j])), "expm", lambda: "%s: %s expected %s" % (a, got, exp))
    require(bool((A == ca.DM(a)).is_one() if A.numel() == 1 else ca.is_equal(A, ca.DM(a))), "expm-mutates", "")
    tr.step()
    tr.state(sc)


def build(tier):
    import yaocptool.modelling  # noqa: F401

    th = tier == "thorough"
    join = [s for n in range(0, 4 if not th else 5) for s in itertools.product(range(len(SHAPES)), repeat=n)]
    const = [(c, d, n) for c in (0, 3, -2.5) for d in (0, 1, 2, 3, (2, 2), (1, 3), 12) for n in (0, 1, 2, 3, 5, 12)]
    poly = [(s, d, z, nm) for s in range(0, 4 if not th else 6) for d in range(1, 6 if not th else 9) for z in (False, True) for nm in (False, True)]
    poly += [(s, d, z, nm) for s, d in ((12, 2), (2, 7)) for z in (False, True) for nm in (False, True)]
    tm = [(tk, h, w) for tk in (0.0, 1.0, -2.0, 0.3) for h in (1.0, 0.5, 4.0) for w in ("util", "model", "back")]
    rel = [(c, k) for c in ("SX", "MX") for k in ("le", "lt", "ge", "gt", "le0", "lt0", "ge0", "gt0", "eq", "eq0", "plus", "ne", "sym", "mul", "const", "and", "not")]
    e2 = [tuple(zip(*[iter(v)] * 2)) for v in itertools.product((-1.0, 0.0, 0.5), repeat=4)]
    e3 = [((0., 1., 0.), (0., 0., 1.), (-1., -2., -3.)), ((1., 2., 0.), (0., -1., 1.), (0., 0., .5)), ((0., 0., 1.), (1., 0., 0.), (0., 1., 0.))]
    e1 = [((v,),) for v in (-2.0, 0.0, 1.0)]
    return [core.Suite("join_thetas", join, run_join), core.Suite("constant_theta", const, run_const), core.Suite("polynomial", poly, run_poly),
            core.Suite("time-maps", tm, run_time), core.Suite("relations", rel, run_rel), core.Suite("expm", e1 + e2 + e3, run_expm)]


if __name__ == "__main__":
    core.main("C07", build,
              {"quick": "all tuples of up to 3 thetas from 12 shapes (up to 12 elements of 12 values); constants 3x7x6; polynomial size 0-3 x degree 1-5 (and 12 x 2, 2 x 7) x point at zero x naming, every node and monomial; 36 time maps; 34 relations; all 2x2 matrices over {-1,0,.5} plus 6",
               "thorough": "up to 4 thetas; size 0-5, degree 1-8"})
