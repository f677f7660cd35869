"""Reference transcription of optimal control problems, on plain floats.

A problem is described by Python functions that work both on CasADi symbols (to build the OptimalControlProblem through
the public API) and on floats (for the reference).  `solve_captured` runs method.solve() with the NLP solver replaced by a
recorder, so what is compared is exactly what a solver would be given, and what the user would be given back.
"""
import math

from .core import Disagreement, require

INF = math.inf

# f(t,x,y,u,p,th) and so on; n = (nx, ny, nu, np, nth)
MODELS = {
    "int": dict(n=(1, 0, 1, 0, 0), f=lambda t, x, y, u, p, th: [u[0]], g=None, L=lambda t, x, y, u, p, th: x[0] * x[0] + u[0] * u[0]),
    "time": dict(n=(1, 0, 1, 0, 0), f=lambda t, x, y, u, p, th: [-x[0] + t * u[0]], g=None,
                 L=lambda t, x, y, u, p, th: t * x[0] + u[0] * u[0]),
    "two": dict(n=(2, 0, 2, 1, 0), f=lambda t, x, y, u, p, th: [x[1] + p[0] * u[0], -x[0] + 2 * u[1] + t], g=None,
                L=lambda t, x, y, u, p, th: x[0] * x[1] + u[0] * u[0] + 3 * u[1]),
    "dae": dict(n=(1, 1, 1, 1, 1), f=lambda t, x, y, u, p, th: [-x[0] + y[0] * 0.5],
                g=lambda t, x, y, u, p, th: [y[0] - (0.5 * x[0] + u[0] * p[0] + 0.3 * t + th[0])], ysol=lambda t, x, u, p, th: [0.5 * x[0] + u[0] * p[0] + 0.3 * t + th[0]],
                L=lambda t, x, y, u, p, th: y[0] * y[0] + 0.1 * x[0] * u[0] + t),
    "full": dict(n=(2, 2, 2, 3, 3), f=lambda t, x, y, u, p, th: [-x[0] + y[1] + th[0] * u[0], -0.5 * x[1] + 0.4 * y[0] + p[2] * u[1] - th[2]],
                 g=lambda t, x, y, u, p, th: [y[0] - x[1] - p[0] * u[0], y[1] - 0.5 * x[0] - th[1] - 0.2 * t - p[1]],
                 ysol=lambda t, x, u, p, th: [x[1] + p[0] * u[0], 0.5 * x[0] + th[1] + 0.2 * t + p[1]],
                 L=lambda t, x, y, u, p, th: y[0] * y[1] + x[0] * x[0] + u[0] * u[1] * p[0] + th[2] * t),
    "free": dict(n=(2, 0, 0, 1, 1), f=lambda t, x, y, u, p, th: [x[1] * p[0], -x[0] + th[0] * t], g=None, L=lambda t, x, y, u, p, th: x[0] * x[0]),
}
V = lambda x, p: x[0] * x[0] * 2 + (x[1] * x[0] if len(x) > 1 else 0) + (p[0] * x[0] if p else 0)
S = lambda t, x, y, u, p, th: x[0] + (3 * u[0] * u[0] if u else 0) + (y[0] * t if y else 0) + (p[0] if p else 0) + (th[0] * x[0] if th else 0) + 0.5 * t
G = lambda t, x, y, u, p, th: x[0] * (1 + t) - 1.5 + (u[-1] if u else 0) + (2 * y[-1] if y else 0) + (th[-1] if th else 0) + (p[-1] if p else 0)
GI = lambda t, x, y, u, p, th: x[-1] * 0.7 - 3 + (u[0] * t if u else 0) - (y[0] if y else 0) + (th[0] * 0.3 if th else 0)
HF = lambda x, p: x[-1] - 0.4 + (p[0] * 2 if p else 0)
H = lambda p: p[0] * p[-1] - 2


def _nth(fn, k):
    """The k-th path constraint: distinct functions, so that constraints and their evaluation times cannot be exchanged unseen."""
    return lambda t, x, y, u, p, th: fn(t, x, y, u, p, th) + 0.37 * k * x[0] - 0.11 * k


class Problem:
    """cfg keys: model, t0, tf, when (None or list of 'default'/'start'/'end'), final, S, V, du ('none','all','first'),
    p_opt (indices), th_opt (indices), bounds (bool), h (bool)."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.m = MODELS[cfg["model"]]
        self.nx, self.ny, self.nu, self.np, self.nth = self.m["n"]
        self.t0, self.tf = cfg.get("t0", 0.0), cfg.get("tf", 1.2)
        self.p_opt = [i for i in cfg.get("p_opt", ()) if i < self.np]
        self.th_opt = [i for i in cfg.get("th_opt", ()) if i < self.nth]
        self.when = list(cfg.get("when") or [])
        self.x_0 = [0.8, -0.3][: self.nx]

    def path(self):
        """Path constraints: (equality, when, function)."""
        c = self.cfg
        eq = [(True, w, k, _nth(G, k)) for k, w in enumerate(c.get("when_eq", self.when))]
        ineq = [(False, w, k, _nth(GI, k)) for k, w in enumerate(c.get("when_ineq", self.when))]
        # as many as there are, in turn: equality, inequality
        return [(e, w, fn) for e, w, _, fn in sorted(eq + ineq, key=lambda q: (q[2], not q[0]))]

    def final_cost(self, x, p):
        return V(x, p) if self.cfg.get("V") else 0.0

    def bounds(self, kind, i):
        if not self.cfg.get("bounds"):
            return (-INF, INF)
        return {"x": (-5.0 - i, 6.0 + i), "y": (-7.0 - i, 8.0 + i), "u": (-1.5 - i, 2.5 + i), "p": (-3.0 - i, 4.0 + i), "th": (-9.0 - i, 9.5 + i)}[kind]

    def du(self, i):
        k = self.cfg.get("du", "none")
        if k == "none" or (k == "first" and i > 0):
            return (-INF, INF)
        if k == "upper":
            return (-INF, 0.6 + i)
        if k == "lower":
            return (-0.7 - i, INF)
        if k == "last":
            return (-0.4, 0.5) if i == self.nu - 1 else (-INF, INF)
        return (-0.4 - i, 0.5 + i)

    def build(self):
        import casadi as ca
        from yaocptool.modelling import OptimalControlProblem, SystemModel

        c, m = self.cfg, SystemModel(name="m")
        v = {}
        for nm, k, mk in (("x", self.nx, m.create_state), ("y", self.ny, m.create_algebraic_variable), ("u", self.nu, m.create_control),
                          ("p", self.np, m.create_parameter), ("th", self.nth, m.create_theta)):
            v[nm] = [mk("%s%d" % (nm, i)) for i in range(k)]
        a = (m.t, v["x"], v["y"], v["u"], v["p"], v["th"])
        m.include_equations(ode=ca.vertcat(*self.m["f"](*a)), x=m.x)
        if self.ny:
            m.include_equations(alg=ca.vertcat(*self.m["g"](*a)))
        o = OptimalControlProblem(m, name="prob", x_0=self.x_0, t_0=self.t0, t_f=self.tf)
        if c.get("L", True):
            o.L = self.m["L"](*a)
        if c.get("V"):
            o.V = V(v["x"], v["p"])
        if c.get("S"):
            o.S = S(*a)
        for is_eq, w, fn in self.path():
            (o.include_time_equality if is_eq else o.include_time_inequality)(fn(*a), when=w)
        if c.get("final"):
            o.include_final_time_equality(HF(v["x"], v["p"]))
        if c.get("h") and self.np:
            o.include_equality(H(v["p"]))
        dm = ca.DM
        if c.get("bounds"):
            o.x_min, o.x_max = (dm([self.bounds("x", i)[k] for i in range(self.nx)]) for k in (0, 1))
            o.y_min, o.y_max = (dm([self.bounds("y", i)[k] for i in range(self.ny)]) for k in (0, 1))
            o.u_min, o.u_max = (dm([self.bounds("u", i)[k] for i in range(self.nu)]) for k in (0, 1))
        if c.get("du", "none") != "none" and self.nu:
            o.delta_u_min, o.delta_u_max = (dm([self.du(i)[k] for i in range(self.nu)]) for k in (0, 1))
        for i in self.p_opt:
            o.set_parameter_as_optimization_parameter(v["p"][i], *[dm(self.bounds("p", i)[k]) for k in (0, 1)])
        for i in self.th_opt:
            o.set_theta_as_optimization_theta(v["th"][i], *[dm(self.bounds("th", i)[k]) for k in (0, 1)])
        if c.get("guess"):
            o.u_guess = dm([0.2 + 0.1 * i for i in range(self.nu)])
            o.y_guess = dm([0.3 + 0.1 * i for i in range(self.ny)])
        if c.get("last_u_problem"):
            o.last_u = dm([0.15 * (i + 1) for i in range(self.nu)])
        return o


def radau(d):
    import casadi as ca

    return [float(v) for v in ca.collocation_points(d, "radau")]


def lagrange(nodes, vals, tau):
    out = [0.0] * len(vals[0])
    for j, tj in enumerate(nodes):
        w = 1.0
        for k, tk in enumerate(nodes):
            if k != j:
                w *= (tau - tk) / (tj - tk)
        for i in range(len(out)):
            out[i] += w * vals[j][i]
    return out


def lagrange_d(nodes, vals, tau):
    out = [0.0] * len(vals[0])
    for j, tj in enumerate(nodes):
        s = 0.0
        for k, tk in enumerate(nodes):
            if k == j:
                continue
            w = 1.0 / (tj - tk)
            for l, tl in enumerate(nodes):
                if l not in (j, k):
                    w *= (tau - tl) / (tj - tl)
            s += w
        for i in range(len(out)):
            out[i] += s * vals[j][i]
    return out


def control_at(pts, tau):
    if not pts:
        return []
    if len(pts) == 1:
        return list(pts[0])
    return lagrange(radau(len(pts)), pts, tau)


def alg_at(pts, tau):
    if len(pts) == 1:
        return list(pts[0])
    return lagrange(radau(len(pts)), pts, tau)


def full_vector(values, opt_idx, opt_vals):
    out = list(values)
    for i, v in zip(opt_idx, opt_vals):
        out[i] = v
    return out


def rhs_with_cost(pr, t, x, y, u, p, th):
    return list(pr.m["f"](t, x, y, u, p, th)) + [pr.m["L"](t, x, y, u, p, th) if pr.cfg.get("L", True) else 0.0]


def common_constraints(pr, x0_nodes, xf, x_0, us, last_u, p):
    """Constraints of both schemes: list of ('eq', value) / ('in', value, lb, ub)."""
    out = [("eq", a - b) for a, b in zip(x0_nodes, list(x_0))]
    if pr.cfg.get("final"):
        out.append(("eq", HF(xf[: pr.nx], p)))
    if pr.cfg.get("h") and pr.np:
        out.append(("eq", H(p)))
    if pr.cfg.get("du", "none") != "none":
        for el in range(len(us)):
            prev = us[el - 1][0] if el else last_u
            if prev is None:
                continue
            for i in range(pr.nu):
                lb, ub = pr.du(i)
                if (lb, ub) != (-INF, INF):
                    out.append(("in", us[el][0][i] - prev[i], lb, ub))
    return out


def reference_collocation(pr, d, n, X, Y, U, p, theta, x_0, last_u):
    """X[el][j], Y[el][j], U[el][k]: floats; returns (constraints, objective)."""
    dt = (pr.tf - pr.t0) / n
    taus = [0.0] + radau(d)
    cons, s_cost = [], 0.0
    for el in range(n):
        t_k = pr.t0 + el * dt
        th = theta[el]
        at = lambda tau: (t_k + tau * dt, lagrange(taus, X[el], tau)[: pr.nx], alg_at(Y[el], tau), control_at(U[el], tau), p, th)
        if el:
            cons += [("eq", a - b) for a, b in zip(X[el - 1][-1], X[el][0])]
        for j in range(1, d + 1):
            a = at(taus[j])
            r = rhs_with_cost(pr, *a)
            dx = lagrange_d(taus, X[el], taus[j])
            cons += [("eq", q - dt * w) for q, w in zip(dx, r)]
            if pr.ny:
                cons += [("eq", v) for v in pr.m["g"](*a)]
        for is_eq, w, fn in pr.path():
            for tau in {"start": [0.0], "end": [1.0], "default": taus[1:]}[w]:
                cons.append(("eq", fn(*at(tau))) if is_eq else ("in", fn(*at(tau)), -INF, 0.0))
        if pr.cfg.get("S"):
            s_cost += S(*at(1.0))
    xf = X[-1][-1]
    cons += common_constraints(pr, X[0][0], xf, x_0, U, last_u, p)
    f = s_cost + xf[-1] + pr.final_cost(xf[: pr.nx], p)
    return cons, f


def rk4(pr, t0, t1, x, U, el_t0, dt, p, th, steps=40):
    """Integrate the model with its cost state over [t0, t1] inside the element starting at el_t0."""

    def F(t, z):
        u = control_at(U, (t - el_t0) / dt)
        xx = z[: pr.nx]
        y = pr.m["ysol"](t, xx, u, p, th) if pr.ny else []
        return rhs_with_cost(pr, t, xx, y, u, p, th)

    h = (t1 - t0) / steps
    z, t = list(x), t0
    for _ in range(steps):
        k1 = F(t, z)
        k2 = F(t + h / 2, [a + h / 2 * b for a, b in zip(z, k1)])
        k3 = F(t + h / 2, [a + h / 2 * b for a, b in zip(z, k2)])
        k4 = F(t + h, [a + h * b for a, b in zip(z, k3)])
        z = [a + h / 6 * (b + 2 * c + 2 * d + e) for a, b, c, d, e in zip(z, k1, k2, k3, k4)]
        t += h
    return z


def reference_shooting(pr, n, X, Y, U, p, theta, x_0, last_u, as_sum=False):
    dt = (pr.tf - pr.t0) / n
    cons, s_cost, run = [], 0.0, 0.0
    for el in range(n):
        t_k = pr.t0 + el * dt
        th = theta[el]
        xe = rk4(pr, t_k, t_k + dt, X[el][0], U[el], t_k, dt, p, th)
        u_end = control_at(U[el], 1.0)
        ye = pr.m["ysol"](t_k + dt, xe[: pr.nx], u_end, p, th) if pr.ny else []
        nxt = list(X[el + 1][0])
        if as_sum:
            run += xe[-1]
            cons += [("eq", a - b) for a, b in zip(xe[:-1] + [0.0], nxt)]
        else:
            cons += [("eq", a - b) for a, b in zip(xe, nxt)]
        cons += [("eq", a - b) for a, b in zip(ye, Y[el][0])]
        a = (t_k + dt, xe[: pr.nx], ye, u_end, p, th)
        for is_eq, w, fn in pr.path():
            assert w != "start"
            cons.append(("eq", fn(*a)) if is_eq else ("in", fn(*a), -INF, 0.0))
        if pr.cfg.get("S"):
            s_cost += S(*a)
    xf = X[-1][0]
    cons += common_constraints(pr, X[0][0], xf, x_0, U, last_u, p)
    f = s_cost + (run if as_sum else 0.0) + xf[-1] + pr.final_cost(xf[: pr.nx], p)
    return cons, f


def match_constraints(got, exp, tol, what):
    """got: list of (value, lb, ub); exp: list of ('eq', v) / ('in', v, lb, ub).  Equal as collections, equalities up to
    sign (v == 0), in whatever order and with one-sided inequalities in either direction."""
    pool = {}

    def norm(v, lb, ub):
        if lb == ub:
            return ("eq",), [abs(v - lb)]
        if lb == -INF and ub == INF:
            return None, None
        if lb == -INF:
            return ("le",), [v - ub]
        if ub == INF:
            return ("le",), [lb - v]
        return ("box", round(ub - lb, 9)), [v - lb]

    for v, lb, ub in got:
        k, q = norm(v, lb, ub)
        if k is not None:
            pool.setdefault(k, []).append(q[0])
    want = {}
    for e in exp:
        k, q = norm(e[1], 0.0, 0.0) if e[0] == "eq" else norm(*e[1:])
        if k is not None:
            want.setdefault(k, []).append(q[0])
    for k in set(pool) | set(want):
        a, b = sorted(pool.get(k, [])), sorted(want.get(k, []))
        require(len(a) == len(b), "constraint-count:" + what, lambda: "%s: %d constraints, the stated problem has %d" % (k, len(a), len(b)))
        for p_, q_ in zip(a, b):
            require(abs(p_ - q_) <= tol * (1 + abs(q_)), "constraint-value:" + what,
                    lambda: "%s constraint value %r where the stated problem has %r (all: %s / %s)" % (k, p_, q_, [round(v, 5) for v in a], [round(v, 5) for v in b]))


class Recorder:
    """Stands in for the NLP solver: records what it is given and returns a fixed point."""

    def __init__(self, problem, point):
        self.problem, self.point, self.calls = problem, point, []

    def __call__(self, initial_guess=None, call_dict=None, p=None, lam_x=None, lam_g=None):
        import casadi as ca

        o = self.problem
        n = o.x.numel()
        xv = ca.DM([self.point(i) for i in range(n)])
        pv = ca.DM() if p is None else ca.vertcat(p)
        require(pv.numel() == o.p.numel(), "nlp-parameter-size", lambda: "the NLP has %d parameters, %d values were given" % (o.p.numel(), pv.numel()))
        f = ca.Function("fg", [o.x, o.p] if o.p.numel() else [o.x], [ca.MX(o.f), ca.vertcat(o.g) if o.g.numel() else ca.MX(0, 1)])
        fv, gv = f(xv, pv) if o.p.numel() else f(xv)
        self.calls.append(dict(initial_guess=initial_guess, p=pv, x=xv, f=fv, g=gv, lam_x=lam_x, lam_g=lam_g))
        z = ca.DM.zeros
        return {"x": xv, "f": fv, "g": gv, "lam_x": z(n), "lam_g": z(gv.numel()), "lam_p": z(pv.numel()), "stats": {"success": True, "return_status": "recorded"}}


def gen(i):
    """Generic decision values, distinct."""
    return 0.1 + math.modf((i + 1) * 0.618033988749895)[0]


def record(method, point=gen):
    """Create the NLP and put the recorder in place of its solver."""
    if method.opt_problem is None:
        method.create_optimization_problem()
    rec = Recorder(method.opt_problem, point)
    method.opt_problem.solve = rec
    return rec


def floats(v):
    import casadi as ca

    return [float(q) for q in ca.DM(v).full().ravel()]


def unpack(method, vec):
    """Through the public layout function: nested lists of floats."""
    import casadi as ca

    x, y, u, eta, p_opt, th = method.discretizer.unpack_decision_variables(ca.DM(vec))
    f = lambda q: [[floats(e) for e in r] for r in q]
    return f(x), f(y), f(u), floats(eta), floats(p_opt), [floats(e) for e in th]


def make_method(pr, cfg):
    from yaocptool.methods import DirectMethod

    o = pr.build()
    kw = dict(finite_elements=cfg["n"], degree=cfg.get("d", 3), degree_control=cfg.get("dc", 1), discretization_scheme=cfg["scheme"])
    if cfg.get("as_sum"):
        kw["cost_as_a_sum"] = True
    if cfg.get("last_u_par"):
        kw["last_control_as_parameter"] = True
    if "integrator" in cfg:
        kw["integrator_type"] = cfg["integrator"]
    if cfg.get("x0_const"):
        kw["initial_condition_as_parameter"] = False
    if "heuristic" in cfg:
        kw["initial_guess_heuristic"] = cfg["heuristic"]
    return o, DirectMethod(o, **kw)


def data(pr, n, salt=0):
    """Values for p and theta given to solve()."""
    p = [1.3 + 0.2 * i + 0.05 * salt for i in range(pr.np)]
    th = {el: [0.4 + 0.3 * i - 0.1 * el + 0.03 * salt for i in range(pr.nth)] for el in range(n)}
    return p, th


def expected(pr, cfg, rec_x, method, p, th, x_0, last_u):
    n = cfg["n"]
    X, Y, U, eta, p_opt, th_opt = unpack(method, rec_x)
    pv = full_vector(p, pr.p_opt, p_opt)
    tv = [full_vector(th[el], pr.th_opt, th_opt[el]) for el in range(n)]
    if cfg["scheme"] == "collocation":
        return reference_collocation(pr, cfg["d"], n, X[:n], Y, U, pv, tv, x_0, last_u)
    return reference_shooting(pr, n, X, Y, U, pv, tv, x_0, last_u, cfg.get("as_sum", False))


def check_nlp(pr, cfg, call, method, p, th, x_0, last_u, tol):
    o = method.opt_problem
    cons, f = expected(pr, cfg, call["x"], method, p, th, x_0, last_u)
    got = list(zip(floats(call["g"]), floats(o.g_lb), floats(o.g_ub)))
    match_constraints(got, cons, tol, cfg["scheme"])
    gf = float(call["f"])
    require(abs(gf - f) <= tol * (1 + abs(f)), "objective:" + cfg["scheme"], lambda: "objective %r, the stated problem has %r" % (gf, f))


def check_bounds(pr, cfg, method):
    """Variable bounds, read through the layout function."""
    o = method.opt_problem
    n = cfg["n"]
    for k, name in ((0, "lb"), (1, "ub")):
        X, Y, U, eta, p_opt, th_opt = unpack(method, o.x_lb if k == 0 else o.x_ub)
        exp_x = [pr.bounds("x", i)[k] for i in range(pr.nx)]
        inf = (-INF, INF)[k]
        for el, r in enumerate(X):
            for v in r:
                require(v[: pr.nx] == exp_x, "bounds:x_" + name, lambda: "%s at element %d, expected %s" % (v, el, exp_x))
                require(v[pr.nx:] == [inf] or v[pr.nx:] == [], "bounds:x_c", lambda: "%s" % v)
        for r in Y:
            for v in r:
                require(v == [pr.bounds("y", i)[k] for i in range(pr.ny)], "bounds:y_" + name, lambda: "%s" % v)
        for r in U:
            for v in r:
                require(v == [pr.bounds("u", i)[k] for i in range(pr.nu)], "bounds:u_" + name, lambda: "%s" % v)
        require(p_opt == [pr.bounds("p", i)[k] for i in pr.p_opt], "bounds:p_opt_" + name, lambda: "%s" % p_opt)
        for v in th_opt:
            require(v == [pr.bounds("th", i)[k] for i in pr.th_opt], "bounds:theta_opt_" + name, lambda: "%s" % v)


def check_layout(pr, cfg, method):
    """Unpacking is a bijection onto the stated shape."""
    o = method.opt_problem
    n = cfg["n"]
    N = o.x.numel()
    X, Y, U, eta, p_opt, th_opt = unpack(method, list(range(N)))
    nx = pr.nx + 1
    if cfg["scheme"] == "collocation":
        d = cfg["d"]
        require([len(r) for r in X] == [d + 1] * n + [1] and [len(r) for r in Y] == [d] * n, "layout-shape", lambda: "%s %s" % (X, Y))
        require(X[n][0] == X[n - 1][-1], "layout-last-x", "")
        xs = X[:n]
    else:
        require([len(r) for r in X] == [1] * (n + 1) and [len(r) for r in Y] == [1] * n, "layout-shape", lambda: "%s %s" % (X, Y))
        xs = X
    require([len(r) for r in U] == [cfg.get("dc", 1) if pr.nu else 0] * n, "layout-controls", lambda: "%s" % U)
    require(all(len(v) == nx for r in X for v in r) and all(len(v) == pr.ny for r in Y for v in r) and all(len(v) == pr.nu for r in U for v in r), "layout-sizes", "")
    require(len(p_opt) == len(pr.p_opt) and all(len(v) == len(pr.th_opt) for v in th_opt) and len(th_opt) == n, "layout-parameters", "")
    flat = [q for r in xs for v in r for q in v] + [q for r in Y for v in r for q in v] + [q for r in U for v in r for q in v] + eta + p_opt + [q for v in th_opt for q in v]
    require(sorted(flat) == list(range(N)), "layout-bijection", lambda: "%s" % flat)


def check_guess(pr, cfg, method, guess):
    require(guess is not None and guess.numel() == method.opt_problem.x.numel(), "guess-size", lambda: "%s" % (guess,))


def run_refused(cfg, tr):
    """Requests that cannot be posed are refused: rate bounds with a control polynomial, data of the wrong size."""
    import casadi as ca
    from yaocptool import config
    from yaocptool.methods import DirectMethod
    from yaocptool.modelling import OptimalControlProblem, SystemModel

    config.SOLVER_OPTIONS["nlpsol_options"]["ipopt.linear_solver"] = "mumps"
    config.SOLVER_OPTIONS["nlpsol_options"]["ipopt.print_level"] = 0
    m = SystemModel("m")
    x, u = m.create_state("x", 2), m.create_control("u", 2)
    p = m.create_parameter("p", 2) if cfg["what"] == "p" else ca.SX.zeros(2)
    m.include_equations(ode=-x + u + p)
    o = OptimalControlProblem(m, x_0=ca.DM([1, 2]), t_f=1.0)
    o.L = ca.dot(x, x) + ca.dot(u, u)
    what, n = cfg["what"], cfg["n"]
    if what == "delta":
        v = ca.DM([ca.inf, ca.inf])
        if cfg["side"] != "none":
            v[n - 1] = 0.5
        o.delta_u_max = v if cfg["side"] == "max" else ca.DM.inf(2)
        o.delta_u_min = -v if cfg["side"] == "min" else -ca.DM.inf(2)
        exp = cfg["degree"] == 1 or cfg["side"] == "none"
    else:
        exp = n == 2
    try:
        s = DirectMethod(o, discretization_scheme=cfg["scheme"], finite_elements=2, degree=2, degree_control=cfg["degree"])
        if what == "delta":
            s.solve()
        else:
            s.solve(p=[0.5] * n if cfg["side"] == "list" else ca.DM([0.5] * n))
        ok = True
    except Exception:
        ok = False
    tr.step()
    require(ok == exp, "refusal:" + what, lambda: "%s was %s" % (cfg, "accepted" if ok else "refused"))
    tr.state(tuple(sorted(cfg.items())))


def refused_configs(scheme):
    out = [dict(what="delta", side=s, n=n, degree=d, scheme=scheme) for s in ("max", "min", "none") for n in (1, 2) for d in (1, 2, 3)]
    out += [dict(what=w, side=s, n=n, degree=1, scheme=scheme) for w in ("p",) for s in ("list", "DM") for n in (1, 2, 3, 4)]
    return out
