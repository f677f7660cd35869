"""C19: the augmented Lagrangian method relaxes exactly the chosen equations and updates multipliers and penalties by its rules."""
import itertools

from . import core, transcribe as T
from .core import require

GEQ = [lambda t, x, y, u, p, th: x[0] * (1 + t) - 0.5 + u[0] - y[-1],
       lambda t, x, y, u, p, th: 0.6 * x[-1] + 0.4 * u[-1] + t - y[0] * 0.7 + 0.2,
       lambda t, x, y, u, p, th: u[0] * x[0] - 0.3 + 0.1 * t]


class Problem(T.Problem):
    """model 'full' / 'dae' (with algebraics) or 'two' (none); eqs: number of time equalities; relax: dict."""

    def path(self):
        return [(True, w, GEQ[k] if self.ny else GEQ[2]) for k, w in enumerate(self.when)]

    def final_cost(self, x, p):
        return 0.0

    def build(self):
        import casadi as ca

        cfg, self.cfg = self.cfg, dict(self.cfg, bounds=False, when=None)
        w, self.when = self.when, []
        o = super().build()
        self.cfg, self.when = cfg, w
        m = o.model
        v = lambda q: [q[i] for i in range(q.numel())]
        for _, when, fn in self.path():
            o.include_time_equality(fn(m.t, v(m.x), v(m.y), v(m.u), v(m.p), v(m.theta)), when=when)
        if cfg.get("bounds"):
            dm = ca.DM
            o.x_min, o.x_max = (dm([self.bounds("x", i)[k] for i in range(self.nx)]) for k in (0, 1))
            o.y_min, o.y_max = (dm([self.bounds("y", i)[k] for i in range(self.ny)]) for k in (0, 1))
            o.u_min, o.u_max = (dm([self.bounds("u", i)[k] for i in range(self.nu)]) for k in (0, 1))
        return o

    def bounds(self, kind, i):
        b = T.Problem.bounds(self, kind, i)
        if kind == "x" and self.cfg.get("one_state_bound") and i == 0:
            return (-T.INF, T.INF)
        if kind == "x" and self.cfg.get("side"):
            return (b[0], T.INF) if self.cfg["side"] == "lower" else (-T.INF, b[1])
        return b


class Relaxed(T.Problem):
    """The problem the method should hand to its solver, for given multipliers and penalties (by equation)."""

    def __init__(self, base, cfg):
        r = cfg["relax"]
        self.base, self.cfg = base, dict(cfg)
        self.alg, self.var, self.eq = list(r["alg"]), list(r["var"]), list(r["eq"])
        self.keep_y = [i for i in range(base.ny) if i not in self.var]
        self.keep_alg = [i for i in range(base.ny) if i not in self.alg]
        self.sb = [i for i in range(base.nx) if base.bounds("x", i) != (-T.INF, T.INF)] if r.get("states") else []
        self.nx, self.ny = base.nx, len(self.keep_y)
        self.nu = base.nu + len(self.var) + len(self.sb)
        self.np, self.nth = base.np, base.nth
        self.t0, self.tf = base.t0, base.tf
        self.p_opt = self.th_opt = []
        self.d = cfg["d"]
        ids = [("alg", i) for i in self.alg] + [("state", i) for i in self.sb] + [("eq", i) for i in self.eq]
        self.ids = ids
        self.nu_val = {k: [[0.0] * self.d for _ in range(cfg["n"])] for k in ids}
        self.mu = {k: cfg.get("mu_0", 1.0) for k in ids}
        self.n = cfg["n"]

        def orig(t, x, y, u):
            yy = [None] * base.ny
            for i, v in zip(self.keep_y, y):
                yy[i] = v
            for k, i in enumerate(self.var):
                yy[i] = u[base.nu + k]
            return yy, list(u[: base.nu]), list(u[base.nu + len(self.var):])

        def residuals(t, x, y, u, p, th):
            yy, uu, ys = orig(t, x, y, u)
            out = {}
            if base.ny:
                g = base.m["g"](t, x, yy, uu, p, th)
                for i in self.alg:
                    out[("alg", i)] = g[i]
            for k, i in enumerate(self.sb):
                out[("state", i)] = ys[k] - x[i]
            pe = base.path()
            for i in self.eq:
                out[("eq", i)] = pe[i][2](t, x, yy, uu, p, th)
            return out

        self.residuals = residuals

        def L(t, x, y, u, p, th):
            yy, uu, _ = orig(t, x, y, u)
            v = base.m["L"](t, x, yy, uu, p, th)
            dt = (self.tf - self.t0) / self.n
            el = min(self.n - 1, max(0, int((t - self.t0) / dt + 1e-9)))
            if abs((t - self.t0) / dt - el) < 1e-9 and self._el is not None:
                el = self._el
            el = self._el if self._el is not None else el
            tau = (t - self.t0) / dt - el
            for k, g in residuals(t, x, y, u, p, th).items():
                v += self.nu_at(k, el, tau) * g + 0.5 * self.mu[k] * g * g
            return v

        self._el = None
        self.m = dict(n=(self.nx, self.ny, self.nu, self.np, self.nth),
                      f=lambda t, x, y, u, p, th: base.m["f"](t, x, *orig(t, x, y, u)[:2], p, th),
                      g=lambda t, x, y, u, p, th: [v for i, v in enumerate(base.m["g"](t, x, *orig(t, x, y, u)[:2], p, th)) if i in self.keep_alg],
                      L=L)
        self.orig = orig

    def nu_at(self, k, el, tau):
        return T.lagrange(T.radau(self.d), [[v] for v in self.nu_val[k][el]], tau)[0] if self.d > 1 else self.nu_val[k][el][0]

    def path(self):
        return [(True, w, (lambda fn: lambda t, x, y, u, p, th: fn(t, x, *self.orig(t, x, y, u)[:2], p, th))(fn)) for i, (_, w, fn) in enumerate(self.base.path()) if i not in self.eq]

    def final_cost(self, x, p):
        return 0.0

    def bounds(self, kind, i):
        b = self.base
        if kind == "x":
            return (-T.INF, T.INF) if i in self.sb else b.bounds("x", i)
        if kind == "y":
            return b.bounds("y", self.keep_y[i])
        if i < b.nu:
            return b.bounds("u", i)
        i -= b.nu
        if i < len(self.var):
            return b.bounds("y", self.var[i])
        return b.bounds("x", self.sb[i - len(self.var)])


def reference(rp, cfg, X, Y, U, p, theta, x_0):
    """Collocation reference with the element index made known to the multiplier polynomials."""
    n, d = cfg["n"], cfg["d"]
    dt = (rp.tf - rp.t0) / n
    taus = [0.0] + T.radau(d)
    cons = []
    viol = {k: [[0.0] * d for _ in range(n)] for k in rp.ids}
    for el in range(n):
        rp._el = el
        t_k = rp.t0 + el * dt
        at = lambda tau: (t_k + tau * dt, T.lagrange(taus, X[el], tau)[: rp.nx], T.alg_at(Y[el], tau) if rp.ny else [], T.control_at(U[el], tau), p, theta[el])
        if el:
            cons += [("eq", a - b) for a, b in zip(X[el - 1][-1], X[el][0])]
        for j in range(1, d + 1):
            a = at(taus[j])
            r = T.rhs_with_cost(rp, *a)
            dx = T.lagrange_d(taus, X[el], taus[j])
            cons += [("eq", q - dt * w) for q, w in zip(dx, r)]
            if rp.ny:
                cons += [("eq", v) for v in rp.m["g"](*a)]
            for k, v in rp.residuals(*a).items():
                viol[k][el][j - 1] = v
        for is_eq, w, fn in rp.path():
            for tau in {"start": [0.0], "end": [1.0], "default": taus[1:]}[w]:
                cons.append(("eq", fn(*at(tau))))
    cons += [("eq", a - b) for a, b in zip(X[0][0], x_0)]
    return cons, X[-1][-1][-1], viol


def make(cfg):
    from yaocptool.methods import AugmentedLagrangian, DirectMethod

    pr = Problem(cfg)
    o = pr.build()
    r = cfg["relax"]
    opts = dict(max_iter=cfg["iters"], tol=cfg.get("tol", 1e-12), mu_update_rule=cfg.get("rule", "bounded-increase"), mu_0=cfg.get("mu_0", 1.0), mu_max=cfg.get("mu_max", 1e4),
                beta=cfg.get("beta", 4.0), only_update_if_improve=cfg.get("improve", False))
    so = dict(initial_guess_heuristic="problem_info", degree_control=cfg.get("dc", 1), discretization_scheme="collocation")
    where = cfg.get("sizes", "options")
    for t in ("options", "solver", "both"):
        if where == t or (where == "both" and t != "both"):
            (opts if t == "options" else so).update(degree=cfg["d"], finite_elements=cfg["n"])
    kw = dict(relax_algebraic_index=list(r["alg"]), relax_time_equality_index=list(r["eq"]), relax_state_bounds=bool(r.get("states")), no_update_after_solving=cfg.get("no_update", False))
    if r["var"] != r["alg"]:
        kw["relax_algebraic_var_index"] = list(r["var"])
    if r.get("all"):
        kw.pop("relax_algebraic_index")
    if not r["eq"]:
        kw.pop("relax_time_equality_index")
    so0 = dict(so)
    al = AugmentedLagrangian(o, DirectMethod, solver_options=so, options=opts, **kw)
    require(so == so0, "solver-options-modified", lambda: "%s -> %s" % (so0, so))
    return pr, o, al


def run(sc, tr):
    import casadi as ca

    cfg, scales = sc
    pr, o, al = make(cfg)
    rp = Relaxed(pr, cfg)
    al.create_optimization_problem()
    solver = al.ocp_solver
    rec = T.Recorder(solver.opt_problem, T.gen)
    count = [0]

    def point(i):
        return scales[min(count[0], len(scales) - 1)] * T.gen(i + 13 * count[0])

    rec.point = point
    p, th = T.data(pr, cfg["n"])
    x_0 = [0.55, -0.15][: pr.nx] + [0.0]
    n, d = cfg["n"], cfg["d"]
    # the layout and bounds of the relaxed problem
    lay = dict(cfg, scheme="collocation")
    T.check_layout(rp, lay, solver)
    T.check_bounds(rp, lay, solver)
    last_err = [None]
    mu_max, beta = cfg.get("mu_max", 1e4), cfg.get("beta", 4.0)
    stopped = [False]
    used = {}

    def hook(*a, **k):
        require(not stopped[0], "no-stop", lambda: "solver called again after the tolerance was met (call %d)" % count[0])
        out = rec(*a, **k)
        call = rec.calls[-1]
        X, Y, U, eta, po, to = T.unpack(solver, call["x"])
        cons, f, viol = reference(rp, cfg, X[:n], Y, U, p, [th[el] for el in range(n)], x_0)
        got = list(zip(T.floats(call["g"]), T.floats(solver.opt_problem.g_lb), T.floats(solver.opt_problem.g_ub)))
        T.match_constraints(got, cons, 1e-6, "iteration")
        require(abs(float(call["f"]) - f) <= 1e-7 * (1 + abs(f)), "objective", lambda: "%s %s" % (call["f"], f))
        # update by the rules
        used["nu"] = {k: [list(r) for r in v] for k, v in rp.nu_val.items()}
        used["viol"] = viol
        if not cfg.get("no_update"):
            err = {k: max(abs(v) for r in viol[k] for v in r) for k in rp.ids}
            for k in rp.ids:
                if cfg.get("improve") and last_err[0] is not None and not err[k] < last_err[0][k]:
                    continue
                rp.nu_val[k] = [[rp.nu_val[k][el][j] + rp.mu[k] * viol[k][el][j] for j in range(d)] for el in range(n)]
            rule = cfg.get("rule", "bounded-increase")
            for k in rp.ids:
                if rule == "bounded-increase":
                    rp.mu[k] = min(mu_max, rp.mu[k] * beta)
                elif rule == "primal" and last_err[0] is not None and not err[k] <= 0.5 * last_err[0][k]:
                    rp.mu[k] = min(mu_max, rp.mu[k] * beta)
            last_err[0] = err
            if all(e < cfg.get("tol", 1e-12) for e in err.values()):
                stopped[0] = True
        count[0] += 1
        tr.step()
        return out

    solver.opt_problem.solve = hook
    for solve in range(cfg.get("solves", 1)):
        stopped[0] = False
        c0 = count[0]
        res = al.solve(p=ca.DM(p) if pr.np else None, theta={k: ca.DM(v) for k, v in th.items()} if pr.nth else None, x_0=ca.DM(x_0))
        require(count[0] - c0 == cfg["iters"] or stopped[0], "iterations", lambda: "%d iterations" % (count[0] - c0))
        # the result
        for name, ids, src in (("nu", rp.ids, used["nu"]), ("alg_violation", [k for k in rp.ids if k[0] != "eq"], used["viol"]), ("eq_violation", [k for k in rp.ids if k[0] == "eq"], used["viol"])):
            if cfg.get("no_update") and name != "nu":
                continue
            v = res.other_data[name]["values"]
            for el in range(n):
                for j in range(d):
                    a, b = sorted(T.floats(v[el][j])), sorted(src[k][el][j] for k in ids)
                    require(len(a) == len(b) and all(abs(q - w) <= 1e-6 * (1 + abs(w)) for q, w in zip(a, b)), "result-" + name, lambda: "element %d point %d: %s, expected %s" % (el, j, a, b))
            times = [[float(q) for q in r] for r in res.other_data[name]["time"]]
            dt = (pr.tf - pr.t0) / n
            exp = [[pr.t0 + (el + tau) * dt for tau in T.radau(d)] for el in range(n)]
            require(len(times) == n and all(abs(a - b) < 1e-9 for r, s in zip(times, exp) for a, b in zip(r, s)), "result-time-" + name, lambda: "%s" % times)
        if not cfg.get("no_update"):
            a, b = sorted(T.floats(res.statistics["violation_error"])), sorted(last_err[0].values())
            require(len(a) == len(b) and all(abs(q - w) <= 1e-6 * (1 + abs(w)) for q, w in zip(a, b)), "result-error", lambda: "%s %s" % (a, b))
    tr.state((sorted((k, repr(v)) for k, v in cfg.items()), scales))


def run_converge(cfg, tr):
    """With the real solver the iteration converges to the optimum of the original problem."""
    import casadi as ca
    from yaocptool.methods import AugmentedLagrangian, DirectMethod
    from . import c18

    pr = c18.Problem(cfg)
    n, d = cfg["n"], cfg["d"]
    p, th = T.data(pr, n)
    x0 = [1.1, -0.4][: pr.nx]
    ref = c18.direct_reference(pr, n, d, p, th, x0)
    o = pr.build()
    al = AugmentedLagrangian(o, DirectMethod, solver_options=dict(degree_control=d, degree=d, finite_elements=n), options=dict(max_iter=25, tol=1e-5, mu_0=cfg["mu_0"], beta=cfg["beta"], mu_max=1e3, mu_update_rule=cfg["rule"]),
                             no_update_after_solving=False)
    res = al.solve(p=ca.DM(p) if p else None, theta={k: ca.DM(v) for k, v in th.items()} if pr.nth else None, x_0=ca.DM(x0 + [0.0]))
    tr.step()
    J, z, xs = ref
    err = max(T.floats(res.statistics["violation_error"]))
    require(err < 1e-4, "violation", lambda: "%r" % err)
    require(abs(float(res.objective_opt_problem) - J) <= 2e-3 * (1 + abs(J)), "optimum", lambda: "%s, the original problem has %r" % (res.objective_opt_problem, J))
    for k, xk in enumerate(xs):
        got = T.floats(res.x_data["values"][k][0])[: pr.nx]
        require(all(abs(a - b) <= 1e-2 for a, b in zip(got, xk)), "optimal-state", lambda: "%s %s" % (got, xk))
    tr.state(sorted((k, repr(v)) for k, v in cfg.items()))


def relaxations(ny, neq, nx):
    out = []
    idx = [list(c) for k in range(ny + 1) for c in itertools.permutations(range(ny), k)]
    for alg in idx:
        for var in itertools.permutations(range(ny), len(alg)):
            for k in range(neq + 1):
                for eq in itertools.permutations(range(neq), k):
                    for st in (False, True):
                        if not (alg or eq or st):
                            continue
                        out.append(dict(alg=alg, var=list(var), eq=list(eq), states=st))
    return out


def build(tier):
    from yaocptool import config
    import yaocptool.methods  # noqa: F401

    config.SOLVER_OPTIONS["nlpsol_options"]["ipopt.linear_solver"] = "mumps"
    th = tier == "thorough"
    out = []
    for model in ("full", "dae", "two"):
        ny = T.MODELS[model]["n"][1]
        whens = [(), ("default",), ("default", "end"), ("start", "default")] if ny else [(), ("default",)]
        for w in whens:
            for r in relaxations(ny, len(w), 2):
                if model == "full" and r["alg"] and r["var"] != r["alg"] and (w and not th):
                    continue
                for t0, d, n, dc in ((0.0, 2, 2, 1), (0.5, 3, 1, 2)) + (((-0.4, 1, 3, 1), (0.3, 2, 3, 3)) if th else ()):
                    if not (r["alg"] or r["eq"]) and model == "dae" and n == 1:
                        continue  # no bounded state: nothing to relax
                    cfg = dict(model=model, when=w, relax=r, t0=t0, tf=t0 + 0.8, d=d, n=n, dc=dc, bounds=True, iters=2, one_state_bound=(n == 1), sizes=("options", "solver", "both")[(len(r["alg"]) + len(r["eq"]) + n) % 3])
                    out.append((cfg, (1.0, 0.4)))
                if r["states"]:
                    for side in ("lower", "upper"):
                        if r["eq"] and not th:
                            continue
                        out.append((dict(cfg, t0=0.1, tf=0.9, d=2, n=2, dc=1, one_state_bound=False, side=side), (1.0, 0.4)))
                if th:
                    out.append((dict(cfg, relax=dict(r, all=True) if r["alg"] == list(range(ny)) else r, d=3, n=2), (1.0, 2.0)))
    # update rules over all short histories of small, medium and large violations
    upd = []
    rels = [("full", ("default", "end"), dict(alg=[0, 1], var=[0, 1], eq=[], states=False)), ("full", ("default", "default"), dict(alg=[1], var=[1], eq=[1], states=False)),
            ("dae", ("default",), dict(alg=[0], var=[0], eq=[0], states=True)), ("two", ("default",), dict(alg=[], var=[], eq=[0], states=True))]
    for model, w, r in rels:
        for rule in ("constant", "primal", "bounded-increase"):
            for improve in (False, True):
                for scales in itertools.product((0.05, 0.5, 2.0), repeat=4 if th else 3):
                    upd.append((dict(model=model, when=w, relax=r, t0=0.2, tf=1.0, d=2, n=2, bounds=True, iters=len(scales), rule=rule, improve=improve, beta=3.0, mu_0=0.7, mu_max=5.0), scales))
            for mm in (0.9, 1.5, 2.1):
                for scales in ((0.05, 0.5, 2.0), (0.5, 0.5, 2.0), (2.0, 2.0, 2.0), (0.05, 2.0, 0.05, 2.0)):
                    upd.append((dict(model=model, when=w, relax=r, t0=0.2, tf=1.0, d=2, n=2, bounds=True, iters=len(scales), rule=rule, beta=3.0, mu_0=0.7, mu_max=mm), scales))
        for iters, solves in ((1, 3), (2, 2)):
            for rule in ("primal", "bounded-increase"):
                upd.append((dict(model=model, when=w, relax=r, t0=0.2, tf=1.0, d=2, n=2, bounds=True, iters=iters, solves=solves, rule=rule, mu_max=50.0), (1.0, 0.2, 1.5, 0.3)))
        for tol in (1e-9, 0.5, 1.0, 2.0, 5.0, 100.0):
            for scales in itertools.product((0.05, 0.5, 2.0), repeat=3):
                upd.append((dict(model=model, when=w, relax=r, t0=0.2, tf=1.0, d=2, n=1, bounds=True, iters=3, tol=tol), scales))
        upd.append((dict(model=model, when=w, relax=r, t0=0.2, tf=1.0, d=2, n=2, bounds=True, iters=2, no_update=True), (1.0, 0.2)))
        for improve in (False, True):
            upd.append((dict(model=model, when=w, relax=r, t0=0.2, tf=1.4, d=1, n=12, bounds=True, iters=3, rule="primal", improve=improve, beta=3.0, mu_0=0.7, mu_max=5.0), (1.0, 0.2, 0.5)))
            upd.append((dict(model=model, when=w, relax=r, t0=0.2, tf=1.4, d=6, n=1, bounds=True, iters=3, rule="primal", improve=improve, beta=3.0, mu_0=0.7, mu_max=5.0), (0.3, 1.0, 0.5)))
    conv = [dict(model="lq_dae", n=n, d=d, t0=t0, tf=t0 + 1.2, V=Vf, final=fin, ub=None, mu_0=mu, beta=b, rule=rule)
            for n, d in (((2, 2), (1, 3)) if not th else ((2, 2), (1, 3), (3, 2), (2, 3))) for t0 in (0.0, 0.7) for Vf in (False, True) for fin in (False, True)
            for mu, b, rule in ((1.0, 4.0, "bounded-increase"), (10.0, 2.0, "primal"), (50.0, 4.0, "constant"))]
    from . import c18
    T.MODELS.update({"lq_" + k: v for k, v in c18.LQ.items()})
    return [core.Suite("relaxation", out, run), core.Suite("updates", upd, run), core.Suite("converge", conv, run_converge)]


if __name__ == "__main__":
    core.main("C19", build,
              {"quick": "3 models x all choices of relaxed algebraic equations and variables, time equalities and state bounds x degrees/elements; all histories of 3 iterations with small, medium or large violations x 3 penalty rules x conditional update; tolerances; repeated solves; 12 elements, degree 6; 48 convergence runs with IPOPT",
               "thorough": "4 iterations, 4 discretisations, more relaxations"},
              ["in the first two suites the NLP solver is replaced by one returning a generic point; objective and constraints it is given are compared with the relaxed problem for the reference multipliers and penalties"])
