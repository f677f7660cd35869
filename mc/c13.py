"""C13: an optimisation problem is exactly what was stated, and solve() solves the current one."""
import itertools
import math

from . import core
from .core import Disagreement, require

INF = math.inf


class Ref:
    def __init__(self):
        self.x = []  # (lb, ub) per scalar
        self.np = 0
        self.obj = None  # list of targets (c_i, weight of p) for the first len(obj) variables
        self.g = []  # (i, a, b, lb, ub): lb <= a*x_i + b*p_0 <= ub (b=0 when there is no parameter)
        self.solved = 0

    def copy(self):
        r = Ref()
        r.x, r.np, r.obj, r.g, r.solved = list(self.x), self.np, self.obj, list(self.g), self.solved
        return r

    def key(self):
        return (tuple(self.x), self.np, self.obj, tuple(self.g), min(self.solved, 1))

    def interval(self, i, p):
        a, b = self.x[i]
        for j, k, w, lb, ub in self.g:
            if j == i and k:
                s = w * p
                l, u = (lb - s) / k, (ub - s) / k
                if k < 0:
                    l, u = u, l
                a, b = max(a, l), min(b, u)
        return a, b


def target(i):
    return (1.7, -2.3, 0.4, -0.9, 2.6, -1.1)[i % 6]


OPS = {}


def op(name):
    def deco(f):
        OPS[name] = f
        return f

    return deco


# each op: f(ref) -> None (not enabled) or (effect already applied on ref, act(problem, xs, ps))
def _var(name, k, lb, ub, how):
    """lb/ub: python value handed over; the reference broadcasts."""

    def f(r):
        if len(r.x) % 12 + k % 12 > 5 or len(r.x) + k > 17:
            return None
        L = lb if isinstance(lb, list) else [lb] * k
        U = ub if isinstance(ub, list) else [ub] * k
        r.x += [(float(a), float(b)) for a, b in zip(L, U)]

        def act(o, xs, ps):
            import casadi as ca

            conv = lambda v: (ca.sparsify(ca.DM(v)) if how == "sparse" else ca.DM(v)) if isinstance(v, list) else v
            kw = {}
            if lb != -INF:
                kw["lb"] = conv(lb)
            if ub != INF:
                kw["ub"] = conv(ub)
            if how == "create":
                v = o.create_variable(o.mc_name % ("v", len(xs)), k, **kw)
            else:
                v = ca.MX.sym(o.mc_name % ("v", len(xs)), k)
                o.include_variable(v, **kw)
            xs.append(v)

        return act

    OPS[name] = f


_var("var1", 1, -INF, INF, "create")
_var("var2_scalar", 2, -2.0, 1.5, "create")
_var("var2_int", 2, -1, 1, "create")
_var("var2_vec", 2, [-3.0, -0.5], [0.0, 4.0], "create")
_var("inc2_float", 2, -1.5, 2.5, "include")
_var("inc2_int", 2, -1, 3, "include")
_var("inc2_lb", 2, 0.5, INF, "include")
_var("inc2_sparse", 2, [0.0, 3.0], [1.0, 5.0], "sparse")
_var("var12", 12, [-3.0 - 0.25 * i for i in range(12)], [0.5 + 0.125 * i for i in range(12)], "create")
_var("inc1_vec", 1, [-4.0], [2.0], "include")


def _par(name, k, how):
    def f(r):
        if r.np + k > 3:
            return None
        r.np += k

        def act(o, xs, ps):
            import casadi as ca

            if how == "create":
                ps.append(o.create_parameter(o.mc_name % ("p", len(ps)), k))
            else:
                v = ca.MX.sym(o.mc_name % ("p", len(ps)), k)
                o.include_parameter(v)
                ps.append(v)

        return act

    OPS[name] = f


_par("par1", 1, "create")
_par("par2", 2, "include")


def _obj(name, form, sign):
    def f(r):
        if not r.x:
            return None
        r.obj = tuple(sign * target(i) for i in range(len(r.x)))
        w = 0.5 if r.np else 0.0
        r.obj = tuple((c, w) for c in r.obj)
        obj = r.obj

        def act(o, xs, ps):
            import casadi as ca

            x = ca.vertcat(*xs)
            e = 0
            for i, (c, w) in enumerate(obj):
                t = c + (w * ca.vertcat(*ps)[0] if w else 0)
                e = e + (x[i] - t) ** 2
            o.set_objective([e] if form == "list" else e)

        return act

    OPS[name] = f


_obj("obj", "expr", 1)
_obj("obj_other", "list", -1)


def _con(name, which, k, a, lb, ub, call):
    """which: 'first'/'last' scalar, or 'vec' (last two scalars)."""

    def f(r):
        n = len(r.x)
        if not n:
            return None
        if which == "vec":
            if n < 2:
                return None
            idx = [n - 2, n - 1]
        else:
            idx = [0] if which == "first" else [n - 1]
        if len(r.g) + len(idx) > 6:
            return None
        L = lb if isinstance(lb, list) else [lb] * len(idx)
        U = ub if isinstance(ub, list) else [ub] * len(idx)
        w = 1.0 if "p" in call and r.np else 0.0
        if "p" in call and not r.np:
            return None
        if which == "mat":
            return None
        for i, l, u in zip(idx, L, U):
            r.g.append((i, a, w, float(l), float(u)))

        def act(o, xs, ps):
            import casadi as ca

            x = ca.vertcat(*xs)
            e = a * ca.vertcat(*[x[i] for i in idx])
            if w:
                e = e + ca.vertcat(*ps)[0]
            conv = lambda v: ca.DM(v) if isinstance(v, list) else v
            if call.startswith("ineq"):
                kw = {}
                if lb != -INF:
                    kw["lb"] = lb if "list" in call else conv(lb)
                if ub != INF:
                    kw["ub"] = ub if "list" in call else conv(ub)
                o.include_inequality(e, **kw)
                return
            c = call.split()[0]
            if c == "eq0":
                o.include_equality(e)
            elif c.startswith("eq"):
                o.include_equality(e, conv(lb))
            elif c == "<=":
                o.include_constraint(e <= conv(ub))
            elif c == "<":
                o.include_constraint(e < conv(ub))
            elif c == ">=":
                o.include_constraint(e >= conv(lb))
            elif c == ">":
                o.include_constraint(e > conv(lb))
            elif c == "c<=":
                o.include_constraint(conv(lb) <= e)
            elif c == "c>=":
                o.include_constraint(conv(ub) >= e)
            elif c == "==":
                o.include_constraint(e == conv(lb))
            elif c == "c==":
                o.include_constraint(conv(lb) == e)

        return act

    OPS[name] = f


_con("ineq_ub", "last", 1, 2.0, -INF, 0.8, "ineq")
_con("ineq_lb_neg", "first", 1, -1.0, -0.6, INF, "ineq")
_con("ineq_both_vec", "vec", 2, 1.0, [-0.9, -0.8], [0.7, 0.9], "ineq")
_con("ineq_broadcast", "vec", 2, 2.0, -1, 1, "ineq")
_con("ineq_p", "last", 1, 1.0, -1.0, 1.0, "ineq p")
_con("eq0", "first", 1, 1.0, 0.0, 0.0, "eq0")
_con("eq_vec0", "vec", 2, 3.0, 0.0, 0.0, "eq0")
_con("eq_scalar", "vec", 2, 2.0, 0.5, 0.5, "eq")
_con("eq_dm", "vec", 2, 1.0, [0.25, 0.5], [0.25, 0.5], "eq")
_con("c_le", "last", 1, 1.0, -INF, 0.3, "<=")
_con("c_lt", "first", 1, -2.0, -INF, 0.9, "<")
_con("c_ge", "last", 1, 1.0, -0.2, INF, ">=")
_con("c_gt0", "first", 1, 1.0, 0.0, INF, ">")
_con("c_le0", "last", 1, -1.0, -INF, 0.0, "<=")
_con("c_le_vec", "vec", 2, 1.0, -INF, [0.4, 0.6], "<=")
_con("c_le_vec0", "vec", 2, 1.0, -INF, [0.0, 0.0], "<=")
_con("c_le_vecbc", "vec", 2, 1.0, -INF, 0.75, "<=")
_con("c_left", "last", 1, 1.0, -0.45, INF, "c<=")
_con("c_left_vec", "vec", 2, -1.0, [-0.4, -0.5], INF, "c<=")
_con("c_left_ge", "first", 1, 1.0, -INF, 1.0, "c>=")
_con("c_eq", "last", 1, 2.0, 0.6, 0.6, "==")
_con("c_eq_left", "first", 1, 2.0, 0.5, 0.5, "c==")
_con("c_eq_vec", "vec", 2, 1.0, [0.25, 0.5], [0.25, 0.5], "==")


_con("c_p_left", "last", 1, 1.0, -1.25, INF, "c<= p")
_con("c_p_le", "first", 1, 2.0, -INF, 3.0, "<= p")


def _con_par(name, rel):
    """A relation that involves the parameter only."""

    def f(r):
        if not r.np or not r.x or len(r.g) > 5:
            return None
        r.g.append((0, 0.0, 1.0, -INF, 5.0) if rel in ("<=", "c>=") else (0, 0.0, 1.0, -5.0, INF))

        def act(o, xs, ps):
            import casadi as ca

            p = ca.vertcat(*ps)[0]
            o.include_constraint({"<=": lambda: p <= 5.0, "c>=": lambda: 5.0 >= p, ">=": lambda: p >= -5.0, "c<=": lambda: -5.0 <= p}[rel]())

        return act

    OPS[name] = f


for _r in ("<=", "c>=", ">=", "c<="):
    _con_par("par" + _r, _r)


def _refuse(name, need, call):
    def f(r):
        if len(r.x) < need[0] or r.np < need[1]:
            return None

        def act(o, xs, ps):
            import casadi as ca

            x = ca.vertcat(*xs) if xs else None
            p = ca.vertcat(*ps) if ps else None
            try:
                call(o, x, p, ca)
            except Exception:
                return
            raise Disagreement("not-refused", name)

        return act

    OPS[name] = f


_refuse("r_var_lb_gt_ub", (0, 0), lambda o, x, p, ca: o.create_variable("z", 2, lb=ca.DM([0, 2]), ub=ca.DM([1, 1])))
_refuse("r_var_size", (0, 0), lambda o, x, p, ca: o.include_variable(ca.MX.sym("z", 2), lb=ca.DM([1, 2, 3])))
_refuse("r_var_bound_p", (0, 1), lambda o, x, p, ca: o.include_variable(ca.MX.sym("z"), lb=p[0]))
_refuse("r_obj_vec", (2, 0), lambda o, x, p, ca: o.set_objective(x))
_refuse("r_obj_row", (2, 0), lambda o, x, p, ca: o.set_objective(x.T))
_refuse("r_ineq_p", (1, 1), lambda o, x, p, ca: o.include_inequality(x[0], lb=p[0]))
_refuse("r_ineq_p_ub", (1, 1), lambda o, x, p, ca: o.include_inequality(x[0], ub=p[0] + 1))
_refuse("r_con_p", (1, 1), lambda o, x, p, ca: o.include_constraint(x[0] <= p[0]))
_refuse("r_ineq_order", (1, 0), lambda o, x, p, ca: o.include_inequality(x[0], lb=1, ub=0))
_refuse("r_ineq_order_2nd", (2, 0), lambda o, x, p, ca: o.include_inequality(x[:2], lb=ca.DM([0, 3]), ub=ca.DM([1, 2])))
_refuse("r_ineq_size", (2, 0), lambda o, x, p, ca: o.include_inequality(x[:2], lb=ca.DM([0, 3, 4])))
_refuse("r_ineq_size_ub", (2, 0), lambda o, x, p, ca: o.include_inequality(x[:2], ub=ca.DM([0, 3, 4])))
_refuse("r_ineq_sym", (2, 0), lambda o, x, p, ca: o.include_inequality(x[0], ub=x[1]))
_refuse("r_eq_size", (2, 0), lambda o, x, p, ca: o.include_equality(x[:2], ca.DM([1, 2, 3])))
_refuse("r_eq_sym", (1, 1), lambda o, x, p, ca: o.include_equality(x[0], p[0]))
_refuse("r_matrix", (2, 0), lambda o, x, p, ca: o.include_inequality(ca.horzcat(x[:2], x[:2]), ub=1))
_refuse("r_both_sides", (2, 0), lambda o, x, p, ca: o.include_constraint(x[0] <= x[1]))
_refuse("r_not_relation", (1, 0), lambda o, x, p, ca: o.include_constraint(x[0] + 1))
_refuse("r_p_size", (1, 0), lambda o, x, p, ca: o.solve(initial_guess=0, p=ca.DM([1] * 7)))


@op("solve")
def _solve(r):
    if r.obj is None or len(r.obj) != len(r.x) or (r.obj[0][1] and not r.np):
        return None
    P = [0.6 + 0.3 * i - 0.2 * r.solved for i in range(r.np)]
    p0 = P[0] if P else 0.0
    exp = []
    for i, (c, w) in enumerate(r.obj):
        a, b = r.interval(i, p0)
        if a > b + 1e-12:
            return None  # infeasible: nothing is promised
        if sum(1 for g in r.g if g[0] == i and g[3] == g[4]) + (a == b) > 2 or sum(1 for g in r.g if g[0] == i and g[3] == g[4]) > 1:
            return None  # redundant equalities: solvers may refuse them
        exp.append(min(max(c + w * p0, a), b))
    r.solved += 1

    def act(o, xs, ps):
        import casadi as ca

        kw = {"p": ca.DM(P)} if P else {}
        s = o.solve(initial_guess=ca.DM([0.1] * len(exp)), **kw)
        require("stats" in s, "solve-stats", "")
        got = [float(v) for v in ca.DM(s["x"]).full().ravel()]
        require(len(got) == len(exp) and all(abs(a - b) < 2e-3 for a, b in zip(got, exp)), "solve-solution", lambda: "x=%s, the stated problem has %s (p=%s)" % (got, exp, P))
        f = sum((v - c - w * p0) ** 2 for v, (c, w) in zip(got, r_obj))
        require(abs(float(s["f"]) - f) < 1e-6 * (1 + abs(f)), "solve-objective", lambda: "f=%s expected %s" % (s["f"], f))

    r_obj = r.obj
    return act


@op("solve_call")
def _solve_call(r):
    """The caller's own bounds, guess and multipliers in a dictionary, which stays as it was; a later solve() is not affected."""
    if r.obj is None or len(r.obj) != len(r.x) or (r.obj[0][1] and not r.np):
        return None
    P = [0.7 + 0.2 * i - 0.1 * r.solved for i in range(r.np)]
    p0 = P[0] if P else 0.0
    c0 = r.obj[0][0] + r.obj[0][1] * p0
    a0, b0 = r.x[0]
    lb0, ub0 = max(a0, min(b0, c0) - 2.0), max(a0, min(b0, c0) - 2.0) + 0.3
    q = r.copy()
    q.x[0] = (lb0, ub0)
    exp = []
    for i, (c, w) in enumerate(r.obj):
        a, b = q.interval(i, p0)
        if a > b + 1e-12 or sum(1 for g in r.g if g[0] == i and g[3] == g[4]) + (a == b) > 1:
            return None
        exp.append(min(max(c + w * p0, a), b))
    r.solved += 1
    n, ng = len(r.x), len(r.g)
    xb = list(r.x)

    def act(o, xs, ps):
        import casadi as ca

        full = lambda v: [float(t) for t in ca.DM(v).full().ravel()]
        d = {"x0": ca.DM([0.2] * n), "lbx": ca.DM([lb0] + [t[0] for t in xb[1:]]), "ubx": ca.DM([ub0] + [t[1] for t in xb[1:]]), "lbg": o.g_lb, "ubg": o.g_ub}
        keep = {k: full(v) for k, v in d.items()}
        kw = {"p": ca.DM(P)} if P else {}
        s = o.solve(initial_guess=ca.DM([0.1] * n), call_dict=d, lam_x=ca.DM.zeros(n), lam_g=ca.DM.zeros(ng), **kw)
        got = full(s["x"])
        require(len(got) == n and all(abs(a - b) < 2e-3 for a, b in zip(got, exp)), "solve-call-solution", lambda: "x=%s, with these bounds the problem has %s" % (got, exp))
        require({k: full(v) for k, v in d.items()} == keep, "solve-call-argument-modified", lambda: "%s, was %s" % (d, keep))

    return act


def observe(o, r, xs, ps):
    import casadi as ca

    n = len(r.x)
    require(o.x.numel() == n and o.p.numel() == r.np, "sizes", lambda: "x %s p %s" % (o.x.shape, o.p.shape))
    vec = lambda d: [float(v) for v in ca.DM(d).full().ravel()]
    require(vec(o.x_lb) == [b[0] for b in r.x] and vec(o.x_ub) == [b[1] for b in r.x], "variable-bounds", lambda: "%s %s expected %s" % (o.x_lb, o.x_ub, r.x))
    require(vec(o.g_lb) == [g[3] for g in r.g] and vec(o.g_ub) == [g[4] for g in r.g], "constraint-bounds", lambda: "%s %s expected %s" % (o.g_lb, o.g_ub, r.g))
    require(o.g.numel() == len(r.g), "constraint-count", lambda: "%d expected %d" % (o.g.numel(), len(r.g)))
    d = o.get_default_call_dict()
    require(vec(d["lbx"]) == vec(o.x_lb) and vec(d["ubx"]) == vec(o.x_ub) and vec(d["lbg"]) == vec(o.g_lb) and vec(d["ubg"]) == vec(o.g_ub), "default-call", "")
    if not n:
        return
    X = [0.3 + 0.7 * i for i in range(n)]
    Pv = [1.1 + 0.4 * i for i in range(r.np)]
    # evaluate in terms of the variables as the user holds them
    user = ca.vertcat(*xs)
    q = ca.Function("q", xs + ps, [o.x, o.p if r.np else ca.MX(0, 1)])
    parts, k = [], 0
    for v in xs:
        parts.append(X[k:k + v.numel()])
        k += v.numel()
    k = 0
    for v in ps:
        parts.append(Pv[k:k + v.numel()])
        k += v.numel()
    gx, gp = q(*parts)
    require(vec(gx) == X and vec(gp) == Pv, "variable-order", lambda: "%s %s" % (gx, gp))
    pd = o.get_problem_dict()
    if r.g:
        got = vec(ca.Function("g", [o.x, o.p] if r.np else [o.x], [pd["g"]])(*([X, Pv] if r.np else [X])))
        exp = [a * X[i] + (w * Pv[0] if w else 0) for i, a, w, _, _ in r.g]
        require(all(abs(a - b) < 1e-12 for a, b in zip(got, exp)), "constraint-value", lambda: "%s expected %s" % (got, exp))
    if r.obj is not None:
        got = float(ca.Function("f", [o.x, o.p] if r.np else [o.x], [pd["f"]])(*([X, Pv] if r.np else [X])))
        exp = sum((X[i] - c - (w * Pv[0] if w else 0)) ** 2 for i, (c, w) in enumerate(r.obj))
        require(abs(got - exp) < 1e-10, "objective-value", lambda: "%s expected %s" % (got, exp))


def run(sc, tr):
    kind, seq = sc
    import casadi as ca
    from yaocptool.optimization import NonlinearOptimizationProblem, QuadraticOptimizationProblem

    if kind.startswith("nlp"):
        o = NonlinearOptimizationProblem(name="prob", solver_options={"ipopt.linear_solver": "mumps", "ipopt.print_level": 0, "print_time": False, "ipopt.sb": "yes", "ipopt.tol": 1e-10})
    else:
        o = QuadraticOptimizationProblem(name="prob", solver_options={"print_time": False, "printLevel": "none"})
    o.mc_name = "same%.0s%.0s" if kind.endswith("~") else "%s%d"
    r = Ref()
    xs, ps = [], []
    tr.state((kind, r.key()))
    for i, name in enumerate(seq):
        act = OPS[name](r)
        if act is None:
            raise ValueError(name)
        try:
            act(o, xs, ps)
            observe(o, r, xs, ps)
        except Disagreement as e:
            raise Disagreement(e.key, "%s after %s: %s" % (kind, list(seq[: i + 1]), e.msg))
        tr.step()
        tr.state((kind, r.key()))


def sequences(alphabet, depth, prefix=()):
    out = []

    def rec(r, seq):
        if len(seq) == depth:
            out.append(tuple(prefix) + tuple(seq))
            return
        n = 0
        for name in alphabet:
            q = r.copy()
            if OPS[name](q) is None:
                continue
            n += 1
            rec(q, seq + [name])
        if not n:
            out.append(tuple(prefix) + tuple(seq))

    r = Ref()
    for name in prefix:
        if OPS[name](r) is None:
            raise ValueError(name)
    rec(r, [])
    return out


def build(tier):
    import yaocptool.optimization  # noqa: F401

    th = tier == "thorough"
    allops = [n for n in OPS if n != "var12"]
    cons = [n for n in OPS if n[0] in "ice"]
    build_ops = [n for n in allops if not n.startswith("r_") and not n.startswith("solve")]
    sc = [("nlp", s) for s in sequences(allops, 3 if th else 2)]
    sc += [("nlp", s) for s in sequences(allops, 3 if th else 2, ("var2_vec", "par1"))]
    sc += [("nlp", s) for s in sequences(build_ops, 3 if th else 2, ("var1", "inc2_float"))]
    sc += [("nlp", s) for s in sequences(allops, 2 if th else 1, ("var1", "par1", "var12"))]
    sol = []
    mid = cons + ["obj_other", "par1"]
    for kind in ("nlp", "qp"):
        for pre in (("var2_scalar", "obj"), ("var1", "var2_vec", "par1", "obj"), ("var2_int", "inc1_vec", "obj"), ("var1", "var12", "obj")):
            for k in (1,) if "var12" in pre and not th else (1, 2, 3) if th and "var12" not in pre else (1, 2):
                for s in sequences(mid, k, pre):
                    q = Ref()
                    for n in s:
                        OPS[n](q)
                    for last in (("solve",), ("solve_call", "solve")):
                        q2 = q.copy()
                        if all(OPS[n](q2) is not None for n in last):
                            sol.append((kind, s + last))
        # solving in the middle of the history
        for s in sequences(mid + ["solve", "solve_call"], 3 if th else 2, ("var2_scalar", "obj", "solve")):
            q = Ref()
            for n in s:
                OPS[n](q)
            if OPS["solve"](q) is not None:
                sol.append((kind, s + ("solve",)))
        for a in ("var1", "inc2_int", "var2_vec"):
            sol.append((kind, ("var1", "obj", "solve", a, "obj_other", "solve")))
            sol.append((kind, ("var1", "obj", "solve", "par1", a, "obj", "solve", "solve")))
    # every variable and parameter has the same name; the solver of another problem is not mistaken for this one's
    sc += [("nlp~", s) for s in sequences(allops, 1, ("var2_vec", "par1", "var1")) + sequences(allops, 2 if th else 1, ("var1", "inc2_float", "par2"))]
    sol += [(k + "~", s) for k in ("nlp", "qp") for s in (("var1", "inc2_int", "obj", "solve"), ("inc2_int", "var1", "obj", "c_le", "solve"), ("var1", "var1", "obj", "c_le", "solve", "c_left_ge", "solve"), ("var1", "par1", "var2_vec", "obj", "solve", "obj_other", "solve"))]
    return [core.Suite("build", sc, run), core.Suite("solve", sol, run)]


if __name__ == "__main__":
    core.main("C13", build,
              {"quick": "all sequences of 2 builder operations (63, incl. 19 refused requests) from 3 starting problems; all sequences of 1-2 constraints solved with IPOPT and qpOASES, with solves in the middle of the history; every operation on a problem of 13 variables; every operation with one name for all variables",
               "thorough": "3 operations; up to 3 constraints"},
              ["the solved problems are separable, so the reference solution is closed-form; tolerance 2e-3"])
