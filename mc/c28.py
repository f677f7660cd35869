"""C28: a stochastic problem becomes a deterministic one over its samples, statistics and chance constraints included."""
import itertools
import math

from . import core
from .c27 import design
from .core import require

# f, y, L, expressions: functions of (t, x, y, u, p, th); p by name
CASES = {
    "ode": dict(nx=1, ny=0, nu=1, p=("a",), nth=0, f=lambda t, x, y, u, p, th: [-p["a"] * x[0] + u[0]], y=lambda t, x, u, p, th: [], L=lambda t, x, y, u, p, th: x[0] ** 2 + 0.5 * u[0] ** 2 * p["a"],
                ex=[lambda t, x, y, u, p, th: x[0] + p["a"], lambda t, x, y, u, p, th: x[0] * x[0] - u[0]]),
    "ode2": dict(nx=2, ny=0, nu=2, p=("b", "a", "c"), nth=1, f=lambda t, x, y, u, p, th: [x[1] * p["a"] + 0.3 * t, -x[0] * p["b"] + u[0] - p["c"] * u[1] + th[0]], y=lambda t, x, u, p, th: [],
                 L=lambda t, x, y, u, p, th: (x[0] - p["c"]) ** 2 + u[1] * u[1] + th[0] * x[1] + 0.1 * t * x[1], ex=[lambda t, x, y, u, p, th: x[0] * p["b"] - x[1], lambda t, x, y, u, p, th: x[1] * th[0] + 0.2 * t + p["c"]]),
    "dae": dict(nx=2, ny=1, nu=1, p=("c", "a"), nth=1, f=lambda t, x, y, u, p, th: [x[1] - p["a"] * y[0], -x[0] + u[0] + th[0]], y=lambda t, x, u, p, th: [p["a"] * x[0] + u[0] * p["c"]],
                L=lambda t, x, y, u, p, th: y[0] ** 2 + x[0] * x[1], ex=[lambda t, x, y, u, p, th: y[0] + x[1], lambda t, x, y, u, p, th: y[0] * p["a"] - th[0]]),
}
MEAN = {"a": 0.9, "b": 1.4, "c": 0.6}
X0 = [1.1, -0.4]
VARS = {1: [[0.04]], 2: [[0.05, 0.02], [0.02, 0.03]], 3: [[0.05, 0.02, 0.0], [0.02, 0.03, 0.01], [0.0, 0.01, 0.02]]}
CACHE = {}


def remember_expansions():
    import numpy as np
    from yaocptool.stochastic import pce

    np.random.seed(3)
    real = pce.get_ls_factor
    if getattr(real, "remembers", False):
        return

    def wrapper(*a, **k):
        key = repr((a, sorted(k.items())))
        if key not in CACHE:
            np.random.seed(3)
            CACHE[key] = real(*a, **k)
        return CACHE[key]

    wrapper.remembers = True
    pce.get_ls_factor = wrapper


def make(cfg):
    """-> (socp, uncertain parameter names in order, uncertain initial conditions in order, means, blocks of covariance)"""
    import casadi as ca
    from yaocptool.modelling import StochasticOCP, SystemModel

    c = CASES[cfg["case"]]
    m = SystemModel(name="sm")
    x = [m.create_state("x%d" % i) for i in range(c["nx"])]
    y = [m.create_algebraic_variable("y%d" % i) for i in range(c["ny"])]
    u = [m.create_control("u%d" % i) for i in range(c["nu"])]
    late = cfg["how"]
    p, free = {}, {}
    for nm in c["p"]:
        if late == "set" or nm not in cfg["unc"]:
            p[nm] = m.create_parameter(nm)
        else:
            p[nm] = ca.SX.sym(nm)  # joins the model through the problem
    th = [m.create_theta("th%d" % i) for i in range(c["nth"])]
    mean_sym = m.create_parameter("mean_sym") if cfg["mean"] == "symbol" else None
    if late == "create":
        # the parameter is created by the problem, the equations follow
        socp = StochasticOCP(m, name="sp")
        m = socp.model
    means, blocks = [], []

    def mean_of(nm):
        return mean_sym if (mean_sym is not None and not means) else MEAN[nm]

    groups = [[nm] for nm in cfg["unc"]] if cfg["group"] == "single" else ([list(cfg["unc"])] if cfg["unc"] else [])
    todo = []
    for g in groups:
        k = len(g)
        mv = [mean_of(nm) for nm in g] if not (mean_sym is not None and not means) else [mean_sym] + [MEAN[nm] for nm in g[1:]]
        means.extend(mv)
        cov = VARS[k] if k > 1 else [[0.03 + 0.01 * len(blocks)]]
        blocks.append(cov)
        todo.append((g, mv, cov))
    if late == "create":
        for g, mv, cov in todo:
            v = socp.create_uncertain_parameter(g[0] if len(g) == 1 else "grp", ca.vertcat(*mv), ca.DM(cov), size=len(g))
            for i, nm in enumerate(g):
                p[nm] = v[i]
    m.include_equations(ode=ca.vertcat(*c["f"](m.t + 0.37 * m.tau, x, y, u, p, th)), x=ca.vertcat(*x))
    if c["ny"]:
        m.include_equations(alg=ca.vertcat(*[a - b for a, b in zip(y, c["y"](m.t + 0.37 * m.tau, x, u, p, th))]))
    if late != "create":
        socp = StochasticOCP(m, name="sp")
        m = socp.model
        for g, mv, cov in todo:
            (socp.set_parameter_as_uncertain_parameter if late == "set" else socp.include_uncertain_parameter)(ca.vertcat(*[p[nm] for nm in g]), ca.vertcat(*mv), ca.DM(cov))
    igroups = [[i] for i in cfg["unc0"]] if cfg["group"] == "single" else ([list(cfg["unc0"])] if cfg["unc0"] else [])
    for g in igroups:
        cov = VARS[len(g)] if len(g) > 1 else [[0.02 + 0.01 * len(blocks)]]
        mv = [X0[i] + 0.1 for i in g]
        means.extend(mv)
        blocks.append(cov)
        socp.set_initial_condition_as_uncertain(ca.vertcat(*[m.x_0[i] for i in g]), ca.DM(mv), ca.DM(cov))
    socp.t_0, socp.t_f = cfg["t0"], cfg["t0"] + 2.0
    if cfg["x0"]:
        socp.x_0 = ca.DM(X0[: c["nx"]])
    socp.L = ca.SX(c["L"](m.t + 0.37 * m.tau, x, y, u, p, th))
    socp.x_min, socp.x_max = ca.DM([-3.0 - i for i in range(c["nx"])]), ca.DM([4.0 + i for i in range(c["nx"])])
    if c["ny"]:
        socp.y_min, socp.y_max = ca.DM([-5.0]), ca.DM([6.0])
        socp.y_guess = ca.DM([0.7])
    socp.u_min, socp.u_max = ca.DM([-1.0 - i for i in range(c["nu"])]), ca.DM([2.0 + i for i in range(c["nu"])])
    socp.delta_u_min, socp.delta_u_max = ca.DM([-0.5] * c["nu"]), ca.DM([0.25] * c["nu"])
    socp.u_guess, socp.last_u = ca.DM([0.3] * c["nu"]), ca.DM([0.2] * c["nu"])
    extra = {}
    if cfg["extra"]:
        free_p = [q for q in c["p"] if q not in cfg["unc"]]
        if free_p:
            socp.set_parameter_as_optimization_parameter(p[free_p[-1]], ca.DM(0.1), ca.DM(3.0))
            extra["p_opt"] = free_p[-1]
        if c["nth"]:
            socp.set_theta_as_optimization_theta(th[0], ca.DM(-2.0), ca.DM(2.5))
            extra["theta_opt"] = True
        socp.include_time_inequality(u[0] - 1.5 - 0.1 * m.t - 0.05 * m.tau, when="start")
        socp.include_time_equality(u[-1] * 0.5 - 0.3 * m.t + 0.07 * m.tau, when="end")
        socp.include_final_time_equality(0.2 * u[0] - 0.1)
        socp.include_initial_time_equality(u[0] - 0.25)
        if free_p:
            socp.include_equality(p[free_p[-1]] - 0.6)
            extra["h"] = free_p[-1]
    chance = []
    n_ex = cfg["chance"]
    if n_ex:
        ex = [c["ex"][k](m.t + 0.37 * m.tau, x, y, u, p, th) for k in range(n_ex)]
        rhs, prob = [0.7, 1.9][:n_ex], [0.9, 0.6][:n_ex]
        f = cfg["form"]
        if f == "list":
            socp.include_time_chance_inequality(list(ex), rhs=list(rhs), prob=list(prob))
        elif f == "each":
            for e, r, q in zip(ex, rhs, prob):
                socp.include_time_chance_inequality(e, rhs=r, prob=q)
        else:  # default right-hand side
            rhs = [0.0] * n_ex
            socp.include_time_chance_inequality(ca.vertcat(*ex), prob=ca.DM(prob))
        chance = list(zip(range(n_ex), rhs, prob))
    return socp, p, means, blocks, chance, extra, mean_sym


def stack(blocks):
    import scipy.linalg

    return scipy.linalg.block_diag(*blocks)


def same(a, b, tol=1e-8):
    import numpy as np

    a, b = np.array(a, dtype=float).flatten(), np.array(b, dtype=float).flatten()
    return a.shape == b.shape and bool(np.all((a == b) | (np.abs(a - b) <= tol * (1 + np.abs(b)))))


def run(cfg, tr):
    import casadi as ca
    import numpy as np
    from yaocptool.stochastic.pce import PCEConverter

    remember_expansions()
    c = CASES[cfg["case"]]
    nx, ny, nu, nth = c["nx"], c["ny"], c["nu"], c["nth"]
    socp, p, means, blocks, chance, extra, mean_sym = make(cfg)
    n = len(means)
    npol = math.comb(n + cfg["order"], n)
    S = npol + cfg["more"]
    before = dict(t=list(socp.time_g_eq), ti=list(socp.time_g_ineq), g=str(socp.g_eq), gi=str(socp.g_ineq), h=str(socp.h_initial), p=str(socp.model.p), ode=str(socp.model.ode), L=str(socp.L))
    kw = dict(n_samples=S) if cfg["more"] else {}
    conv = PCEConverter(socp, pc_order=cfg["order"], **kw)
    stat = []
    if cfg["stat"]:
        x = [socp.model.x[i] for i in range(nx)]
        y = [socp.model.y[i] for i in range(ny)]
        u = [socp.model.u[i] for i in range(nu)]
        th = [socp.model.theta[i] for i in range(nth)]
        conv.stochastic_variables.append(x[-1])
        stat.append(("x%d" % (nx - 1), lambda t, x, y, u, p, th: x[-1]))
        conv.stochastic_variables.append(ca.SX(c["ex"][1](socp.model.t + 0.37 * socp.model.tau, x, y, u, p, th)))
        stat.append(("stoch_var_1", c["ex"][1]))
    pr = conv.convert_socp_to_ocp_with_pce()
    tr.step()
    m = pr.model
    after = dict(t=list(socp.time_g_eq), ti=list(socp.time_g_ineq), g=str(socp.g_eq), gi=str(socp.g_ineq), h=str(socp.h_initial), p=str(socp.model.p), ode=str(socp.model.ode), L=str(socp.L))
    require(before == after, "source-changed", lambda: "the stochastic problem changed: %s" % {k: (before[k], after[k]) for k in before if before[k] != after[k]})
    require(pr.t_0 == cfg["t0"] and pr.t_f == cfg["t0"] + 2.0, "horizon", lambda: "[%s, %s]" % (pr.t_0, pr.t_f))
    require(m.n_x == S * (nx + 1) and m.n_y == S * ny and m.n_u == nu, "sizes", lambda: "x %d y %d u %d" % (m.n_x, m.n_y, m.n_u))
    rest = [q.name() for q in socp.model.p.nz if q.name() not in [r.name() for r in socp.p_unc.nz]]
    pnames = [q.name() for q in m.p.nz]
    require(pnames[: len(rest)] == rest, "parameters", lambda: "%s, expected to start with %s" % (pnames, rest))
    require(not set(r.name() for r in socp.p_unc.nz) & set(pnames), "parameters", lambda: "uncertain parameters remain: %s" % pnames)
    tnames = [q.name() for q in m.theta.nz]

    # what the problem says, at numeric points
    def val(nm):  # values of the remaining parameters
        return {"mean_sym": 0.95}.get(nm, MEAN.get(nm, 0.0))

    order_names = list(cfg["unc"])
    low = np.linalg.cholesky(stack(blocks))
    mu = np.array([0.95 if isinstance(v, ca.SX) else float(v) for v in means])
    samples = mu[:, None] + low @ design(n, S)
    ls, norms, _ = _expansion(n, S, cfg["order"])

    args = [m.t, m.tau, m.x, m.y, m.u, m.p, m.theta, m.x_0]
    outs = [m.ode, m.alg, ca.SX(pr.V), ca.SX(pr.L), ca.SX(pr.S), pr.h_initial, pr.h_final, pr.g_eq, pr.g_ineq, pr.h]
    F = ca.Function("F", args, outs)
    new_p = [i for i, q in enumerate(pnames) if i >= len(rest)]
    new_th = [i for i in range(len(tnames)) if i >= nth]
    newv = ca.vertcat(*[m.theta[i] for i in new_th]) if new_th else ca.SX(0, 1)
    JG = ca.Function("JG", args, [ca.jacobian(pr.g_eq, newv)])
    JF = ca.Function("JF", args, [ca.jacobian(pr.h_final, ca.vertcat(*[m.p[i] for i in new_p]))])
    for pt in range(3):
        rnd = lambda *k: round(0.4 + 0.9 * math.sin(1.3 * pt + sum((i + 1.7) * q for i, q in enumerate(k))), 6)
        t, tv = cfg["t0"] + 0.3 * pt, 0.15 + 0.2 * pt
        te = t + 0.37 * tv
        u = [rnd(1, i) for i in range(nu)]
        th = [rnd(2, i) for i in range(nth)]
        pv = {q: val(q) + 0.05 * pt for q in rest}
        if mean_sym is not None:
            shift = pv["mean_sym"] - 0.95
        xs = [[rnd(3, s, i) for i in range(nx)] for s in range(S)]
        cs = [rnd(4, s) + 0.3 * s for s in range(S)]
        ys = [[rnd(5, s, i) for i in range(ny)] for s in range(S)]
        x0s = [[rnd(6, s, i) for i in range(nx)] for s in range(S)]
        c0s = [rnd(7, s) for s in range(S)]
        smp = samples.copy()
        if mean_sym is not None:
            smp[0, :] += shift
        ps = []
        for s in range(S):
            d = {q: pv[q] for q in rest if q in c["p"]}
            for i, q in enumerate(order_names):
                d[q] = smp[i, s]
            ps.append(d)
        X = list(itertools.chain(*[xs[s] + [cs[s]] for s in range(S)]))
        X_0 = list(itertools.chain(*[x0s[s] + [c0s[s]] for s in range(S)]))
        Y = list(itertools.chain(*ys))
        # the values the statistics must take
        table = {}

        def add_stat(name, fn):
            v = np.array([fn(te, xs[s], ys[s], u, ps[s], th) for s in range(S)], dtype=float)
            a = ls @ v
            table[name + "_mean"], table[name + "_par"], table[name + "_var"] = [a[0]], list(a), [float(sum(a[k] ** 2 * norms[k] for k in range(1, npol)))]
            return a[0], table[name + "_var"][0]

        for nm, fn in stat:
            add_stat(nm, fn)
        for k, r, q in chance:
            mean, var = add_stat("stoch_constr_%d" % k, c["ex"][k])
            table["stoch_constr_%d_viol_prob" % k] = [math.sqrt(q / (1 - q)) * math.sqrt(max(1e-6, var)) + mean - r]
        a = ls @ np.array(cs)
        ptable = {"cost_pol_par": list(a), "cost_mean": [a[0]], "cost_var": [float(sum(a[k] ** 2 * norms[k] for k in range(1, npol)))]}

        def fill(names, tab):
            # entries are "<name>" or "<name>_<i>"
            out, used = [], {}
            for q in names:
                hit = [k for k in tab if q == k or (q.startswith(k + "_") and q[len(k) + 1:].isdigit())]
                require(len(hit) == 1, "unknown-variable", lambda: "variable %s among %s" % (q, list(tab)))
                i = used.get(hit[0], 0)
                require(i < len(tab[hit[0]]), "unknown-variable", lambda: "too many %s" % hit[0])
                out.append(tab[hit[0]][i])
                used[hit[0]] = i + 1
            require(all(used.get(k, 0) == len(v) for k, v in tab.items()), "missing-variable", lambda: "%s of %s" % (used, {k: len(v) for k, v in tab.items()}))
            return out

        pvec = [pv[q] for q in rest] + fill(pnames[len(rest):], ptable)
        tvec = th + fill(tnames[nth:], table)
        point = [t, tv, ca.DM(X), ca.DM(Y) if Y else ca.DM.zeros(0, 1), ca.DM(u), ca.DM(pvec), ca.DM(tvec) if tvec else ca.DM.zeros(0, 1), ca.DM(X_0)]
        ode, alg, V, L, Sc, hi, hf, ge, gi, h = [o.full().flatten() for o in F.call(point)]
        e_ode = list(itertools.chain(*[list(c["f"](te, xs[s], ys[s], u, ps[s], th)) + [c["L"](te, xs[s], ys[s], u, ps[s], th)] for s in range(S)]))
        require(same(ode, e_ode), "dynamics", lambda: "%s, expected %s" % (ode, e_ode))
        e_alg = list(itertools.chain(*[[q - r for q, r in zip(ys[s], c["y"](te, xs[s], u, ps[s], th))] for s in range(S)]))
        require(same(alg, e_alg), "algebraics", lambda: "%s, expected %s" % (alg, e_alg))
        require(same(V, [a[0]]) and same(L, [0.0]) and same(Sc, [0.0]), "objective", lambda: "V %s L %s S %s, expected %s" % (V, L, Sc, a[0]))
        # initial conditions
        for s in range(S):
            for i, ind in enumerate(cfg["unc0"]):
                x0s[s][ind] = smp[len(order_names) + i, s]
        e_hi = [q - r for q, r in zip(X, itertools.chain(*[x0s[s] + [c0s[s]] for s in range(S)]))]
        if extra or cfg["extra"]:
            e_hi = e_hi + [u[0] - 0.25]
        require(same(hi, e_hi), "initial", lambda: "%s, expected %s" % (hi, e_hi))
        # end, path and plain equations: those of the source, then what determines the statistics
        e_hf = [0.2 * u[0] - 0.1] if cfg["extra"] else []
        require(same(hf, e_hf + [0.0] * (npol + 2), 1e-7), "cost-statistics", lambda: "%s" % hf)
        require(np.linalg.matrix_rank(JF.call(point)[0].full()) == npol + 2, "cost-statistics", "the cost statistics are not determined")
        e_ge = [u[-1] * 0.5 - 0.3 * t + 0.07 * tv] if cfg["extra"] else []
        require(same(ge, e_ge + [0.0] * len(new_th), 1e-7), "statistics", lambda: "%s" % ge)
        if new_th:
            require(np.linalg.matrix_rank(JG.call(point)[0].full()) == len(new_th), "statistics", "the statistics are not determined")
        require(same(gi, [u[0] - 1.5 - 0.1 * t - 0.05 * tv] if cfg["extra"] else []), "inequalities", lambda: "%s" % gi)
        require(same(h, [pv[extra["h"]] - 0.6] if "h" in extra else []), "equalities", lambda: "%s" % h)
        tr.step()
        tr.state((cfg["case"], tuple(cfg["unc"]), tuple(cfg["unc0"]), S, pt, [round(float(q), 6) for q in e_ode[:4]]))
    require(list(pr.time_g_eq) == (["end"] if cfg["extra"] else []) + ["end"] * len(new_th), "when", lambda: "%s" % pr.time_g_eq)
    require(list(pr.time_g_ineq) == (["start"] if cfg["extra"] else []), "when", lambda: "%s" % pr.time_g_ineq)

    # bounds and guesses
    inf = float("inf")

    def eq(name, got, exp):
        g = ca.DM(got).full().flatten()
        require(same(g, exp), "bounds", lambda: "%s: %s, expected %s" % (name, g, exp))

    eq("x_max", pr.x_max, ([4.0 + i for i in range(nx)] + [inf]) * S)
    eq("x_min", pr.x_min, ([-3.0 - i for i in range(nx)] + [-inf]) * S)
    eq("y_max", pr.y_max, [6.0] * ny * S)
    eq("y_min", pr.y_min, [-5.0] * ny * S)
    eq("u_max", pr.u_max, [2.0 + i for i in range(nu)])
    eq("u_min", pr.u_min, [-1.0 - i for i in range(nu)])
    eq("delta_u_max", pr.delta_u_max, [0.25] * nu)
    eq("delta_u_min", pr.delta_u_min, [-0.5] * nu)
    eq("u_guess", pr.u_guess, [0.3] * nu)
    eq("last_u", pr.last_u, [0.2] * nu)
    if ny:
        eq("y_guess", pr.y_guess, [0.7] * S)
    eq("x_0", pr.x_0, (X0[:nx] + [0.0]) * S if cfg["x0"] else [])
    po = ([extra["p_opt"]] if "p_opt" in extra else []) + pnames[len(rest):]
    require([q.name() for q in pr.p_opt.nz] == po, "optimized", lambda: "%s, expected %s" % (pr.p_opt, po))
    eq("p_opt_max", pr.p_opt_max, ([3.0] if "p_opt" in extra else []) + [inf] * (npol + 2))
    eq("p_opt_min", pr.p_opt_min, ([0.1] if "p_opt" in extra else []) + [-inf] * (npol + 2))
    to = (["th0"] if "theta_opt" in extra else []) + tnames[nth:]
    require([q.name() for q in pr.theta_opt.nz] == to, "optimized", lambda: "%s, expected %s" % (pr.theta_opt, to))
    eq("theta_opt_max", pr.theta_opt_max, ([2.5] if "theta_opt" in extra else []) + [0.0 if "viol_prob" in q else inf for q in tnames[nth:]])
    eq("theta_opt_min", pr.theta_opt_min, ([-2.0] if "theta_opt" in extra else []) + [-inf] * len(tnames[nth:]))


def _expansion(n, S, order):
    import casadi as ca
    from yaocptool.stochastic.pce import get_ls_factor

    ls, norms, psi = get_ls_factor(n, S, order, 0.0)
    return ca.DM(ls).full(), ca.DM(norms).full().flatten(), psi


def run_refuse(cfg, tr):
    """Malformed uncertainty is refused and leaves the problem as it was."""
    import casadi as ca
    from yaocptool.modelling import StochasticOCP, SystemModel
    from yaocptool.stochastic.pce import PCEConverter

    m = SystemModel(name="sm")
    x, u, a, b = m.create_state("x", 2), m.create_control("u"), m.create_parameter("a"), m.create_parameter("b")
    m.include_equations(ode=ca.vertcat(-a * x[0] + u, b * x[1]))
    s = StochasticOCP(m)
    snap = lambda: [str(getattr(s, k)) for k in ("p_unc", "p_unc_mean", "p_unc_cov", "p_unc_dist", "uncertain_initial_conditions", "uncertain_initial_conditions_mean", "uncertain_initial_conditions_cov",
                                                 "uncertain_initial_conditions_distribution", "g_stochastic_ineq", "g_stochastic_rhs", "g_stochastic_prob")]
    for op in cfg["ops"]:
        before = snap()
        try:
            if op == "mean":
                s.set_parameter_as_uncertain_parameter(ca.vertcat(a, b), ca.DM([1.0]), ca.DM.eye(1))
            elif op == "cov":
                s.set_parameter_as_uncertain_parameter(a, ca.DM([1.0]), ca.DM.eye(2))
            elif op == "mean0":
                s.set_initial_condition_as_uncertain(s.model.x_0, ca.DM([1.0]), ca.DM.eye(1))
            elif op == "cov0":
                s.set_initial_condition_as_uncertain(s.model.x_0, ca.DM([1.0, 2.0]), ca.DM.eye(1))
            elif op == "rhs":
                s.include_time_chance_inequality(s.model.x, rhs=[1.0], prob=[0.9, 0.9])
            elif op == "prob":
                s.include_time_chance_inequality(s.model.x, rhs=[1.0, 2.0], prob=[0.9])
            elif op == "ok":
                s.set_parameter_as_uncertain_parameter(a, ca.DM([1.0]), ca.DM([[0.1]]))
                before = snap()
                tr.step()
                continue
            raised = False
        except ValueError:
            raised = True
        require(raised, "accepted", lambda: "malformed %s accepted" % op)
        require(snap() == before, "refused-changed", lambda: "refused %s changed the problem" % op)
        tr.step()
        tr.state(tuple(before))
    try:
        PCEConverter(s).convert_socp_to_ocp_with_pce()
        ok = True
    except ValueError:
        ok = False
    require(ok == ("ok" in cfg["ops"]), "no-uncertainty", "a problem without uncertainty is refused, one with it is not")


def run_unsupported(cfg, tr):
    """Costs and constraints that cannot be carried over to the samples are refused, not dropped."""
    import casadi as ca
    from yaocptool.modelling import StochasticOCP, SystemModel
    from yaocptool.stochastic.pce import PCEConverter

    remember_expansions()
    m = SystemModel(name="sm")
    x, y, u, a = m.create_state("x", 2), m.create_algebraic_variable("y"), m.create_control("u"), m.create_parameter("a")
    m.include_equations(ode=ca.vertcat(-a * x[0] + u, x[1]), alg=y - u)
    s = StochasticOCP(m, x_0=ca.DM([1, 2]), t_f=1.0)
    s.set_parameter_as_uncertain_parameter(a, ca.DM([1.0]), ca.DM([[0.1]]))
    for w in cfg["what"]:
        if w in ("V", "S"):
            setattr(s, w, x[1] ** 2)
        elif w in ("V1", "S1"):
            setattr(s, w[0], ca.SX(1))
        elif w == "u":
            s.include_time_inequality(u - 1)
            s.include_time_equality(u - 0.5 * s.model.t)
        else:
            v = {"x": x[1], "y": y}[w[1]]
            (s.include_time_equality if w[0] == "e" else s.include_time_inequality)(v - 1)
    try:
        PCEConverter(s, pc_order=1).convert_socp_to_ocp_with_pce()
        ok = True
    except Exception:
        ok = False
    tr.step()
    require(ok == (set(cfg["what"]) <= {"u"}), "unsupported", lambda: "%s: %s" % (cfg["what"], "converted" if ok else "refused"))
    tr.state(cfg["what"])


def run_dist(cfg, tr):
    """A distribution that is not implemented is refused, whichever declaration it came with."""
    import casadi as ca
    from yaocptool.modelling import StochasticOCP, SystemModel
    from yaocptool.stochastic.pce import PCEConverter

    remember_expansions()
    m = SystemModel(name="sm")
    x, u, a = m.create_state("x"), m.create_control("u"), m.create_parameter("a")
    b, c = ca.SX.sym("b"), None
    s = StochasticOCP(m)
    rhs = -a * x + u
    for what, dist in cfg["decl"]:
        kw = {} if dist == "default" else dict(distribution=dist)
        if what == "set":
            s.set_parameter_as_uncertain_parameter(a, ca.DM([1.0]), ca.DM([[0.1]]), **kw)
        elif what == "include":
            s.include_uncertain_parameter(b, ca.DM([0.5]), ca.DM([[0.1]]), **kw)
            rhs = rhs + b
        elif what == "create":
            c = s.create_uncertain_parameter("c", ca.DM([0.5]), ca.DM([[0.2]]), **kw)
            rhs = rhs + c * x
        else:
            s.set_initial_condition_as_uncertain(s.model.x_0, ca.DM([1.0]), ca.DM([[0.1]]), **kw)
        tr.step()
    s.model.include_equations(ode=rhs, x=x)
    try:
        PCEConverter(s).convert_socp_to_ocp_with_pce()
        ok = True
    except NotImplementedError:
        ok = False
    require(ok == all(d != "uniform" for _, d in cfg["decl"]), "distribution", lambda: "declared %s, converted: %s" % (cfg["decl"], ok))
    tr.state(cfg["decl"])


def run_solve(cfg, tr):
    """The solution of the converted problem: every sample follows its own dynamics under the common control, the statistics are those of the samples."""
    import casadi as ca
    import numpy as np
    import yaocptool.config as config
    from yaocptool.methods import DirectMethod
    from yaocptool.modelling import StochasticOCP, SystemModel
    from yaocptool.stochastic.pce import PCEConverter

    remember_expansions()
    config.SOLVER_OPTIONS["nlpsol_options"]["ipopt.linear_solver"] = "mumps"
    m = SystemModel(name="sm")
    x, u, a = m.create_state("x"), m.create_control("u"), m.create_parameter("a")
    m.include_equations(ode=-a * x + u)
    s = StochasticOCP(m)
    s.t_f, s.x_0, s.L = 1.0, ca.DM([1.0]), (x - 0.5) ** 2 + 0.1 * u ** 2
    s.u_min, s.u_max = ca.DM([-2.0]), ca.DM([2.0])
    s.set_parameter_as_uncertain_parameter(a, ca.DM([0.8]), ca.DM([[cfg["var"]]]))
    if cfg["unc0"]:
        s.set_initial_condition_as_uncertain(s.model.x_0, ca.DM([1.0]), ca.DM([[0.02]]))
    if cfg["chance"] is not None:
        s.include_time_chance_inequality(x, rhs=[cfg["chance"]], prob=[0.8])
    conv = PCEConverter(s, pc_order=2)
    pr = conv.convert_socp_to_ocp_with_pce()
    el = 6
    res = DirectMethod(pr, finite_elements=el, discretization_scheme=cfg["scheme"], degree=3, degree_control=1).solve()
    n = 2 if cfg["unc0"] else 1
    npol = math.comb(n + 2, n)
    blocks = [[[cfg["var"]]]] + ([[[0.02]]] if cfg["unc0"] else [])
    mu = np.array([0.8] + ([1.0] if cfg["unc0"] else []))
    smp = mu[:, None] + np.linalg.cholesky(stack(blocks)) @ design(n, npol)
    ls, norms, _ = _expansion(n, npol, 2)
    ut, uv = res.dataset.get_entry("u")
    uv = [float(q) for q in ca.DM(uv).full().flatten()]
    ctrl = [uv[i * (len(uv) // el)] for i in range(el)] if len(uv) != el else uv
    ends, costs, path = [], [], []
    for k in range(npol):
        z, cost, tr_x = (smp[1, k] if cfg["unc0"] else 1.0), 0.0, []
        for e in range(el):
            h, steps = 1.0 / el / 60, 60
            for _ in range(steps):
                fx = lambda v: -smp[0, k] * v + ctrl[e]
                fl = lambda v: (v - 0.5) ** 2 + 0.1 * ctrl[e] ** 2
                k1, l1 = fx(z), fl(z)
                k2, l2 = fx(z + h / 2 * k1), fl(z + h / 2 * k1)
                k3, l3 = fx(z + h / 2 * k2), fl(z + h / 2 * k2)
                k4, l4 = fx(z + h * k3), fl(z + h * k3)
                z, cost = z + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4), cost + h / 6 * (l1 + 2 * l2 + 2 * l3 + l4)
            tr_x.append(z)
        ends.append(z)
        costs.append(cost)
        path.append(tr_x)
        tr.step()
    xf = [float(q) for q in ca.DM(res.x_final()).full().flatten()] if callable(getattr(res, "x_final", None)) else [float(q) for q in ca.DM(res.dataset.get_entry("x")[1])[:, -1].full().flatten()]
    exp = list(itertools.chain(*zip(ends, costs)))
    require(same(xf[: len(exp)], exp, 2e-4), "samples", lambda: "%s, expected %s" % (xf, exp))
    av = ls @ np.array(costs)
    po = [float(q) for q in ca.DM(res.p_opt).full().flatten()]
    names = [q.name() for q in pr.p_opt.nz]
    got = dict(zip(names, po))
    require(abs(got["cost_mean"] - av[0]) < 1e-3 and abs(got["cost_var"] - sum(av[k] ** 2 * norms[k] for k in range(1, npol))) < 1e-3, "cost", lambda: "%s, expected mean %s" % (got, av[0]))
    if cfg["chance"] is not None:
        for e in range(el):
            b = ls @ np.array([path[k][e] for k in range(npol)])
            v = sum(b[k] ** 2 * norms[k] for k in range(1, npol))
            require(2.0 * math.sqrt(max(1e-6, v)) + b[0] <= cfg["chance"] + 1e-3, "chance", lambda: "element %d: mean %s, variance %s" % (e, b[0], v))
    tr.state(("solve", [round(v, 4) for v in exp]))


def build(tier):
    import yaocptool.stochastic.pce  # noqa: F401

    th = tier == "thorough"
    conv, refuse, solve = [], [], []
    for case, c in CASES.items():
        sets = [()] + [q for k in (1, 2) for q in itertools.permutations(c["p"], k)]
        sets0 = [()] + [q for k in range(1, c["nx"] + 1) for q in itertools.permutations(range(c["nx"]), k)]
        for unc, unc0 in itertools.product(sets, sets0):
            n = len(unc) + len(unc0)
            if not n or n > (4 if th else 3):
                continue
            for how, group, mean, order, more, chance, stat, extra, t0 in itertools.product(("set", "include", "create"), ("single", "group"), ("number", "symbol"), (1, 2), (0, 3), (0, 1, 2), (False, True), (False, True), (0.0, 1.5)):
                if group == "group" and max(len(unc), len(unc0)) < 2:
                    continue
                if mean == "symbol" and not unc:
                    continue
                if how != "set" and not unc:
                    continue
                if how == "create" and group == "group" and False:
                    continue
                key = (("set", "include", "create").index(how) + (mean == "symbol") + order + (more > 0) + chance + 2 * stat + 3 * extra + (t0 > 0)) % (6 if n < 3 else 12)
                if not th and key != 0:
                    continue
                if not th and order == 2 and n == 3 and stat:
                    continue
                conv.append(dict(case=case, unc=unc, unc0=unc0, how=how, group=group, mean=mean, order=order, more=more, chance=chance, stat=stat, extra=extra, t0=t0,
                                 x0=not (stat and extra), form=("list", "each", "default")[(chance + order + extra + len(unc)) % 3]))
    ops = ("mean", "cov", "mean0", "cov0", "rhs", "prob", "ok")
    for k in (1, 2):
        refuse += [dict(ops=o) for o in itertools.permutations(ops, k)]
    for var, unc0, chance, scheme in itertools.product((0.01, 0.04), (False, True), (None, 1.2), ("collocation", "multiple-shooting")):
        if not th and scheme != "collocation" and unc0:
            continue
        solve.append(dict(var=var, unc0=unc0, chance=chance, scheme=scheme))
    dist = [dict(decl=tuple(zip(w, d))) for k in (1, 2, 3) for w in itertools.permutations(("set", "include", "create", "x0"), k) for d in itertools.product(("default", "normal", "uniform")[: 3 if k < 3 else None][-2 if k == 3 else 0:], repeat=k)]
    uns = [dict(what=w) for k in (0, 1, 2) for w in itertools.permutations(("u", "V", "S", "ex", "ey", "ix", "iy", "V1", "S1"), k) if len({q[0] for q in w}) == k]
    return [core.Suite("unsupported", uns, run_unsupported), core.Suite("distributions", dist, run_dist), core.Suite("solutions", solve, run_solve), core.Suite("conversions", conv, run), core.Suite("refusals", refuse, run_refuse)]


if __name__ == "__main__":
    core.main("C28", build,
              {"quick": "3 problems (one state; two states with theta and time-varying dynamics; DAE; all depending on t and tau): every ordered choice of 0-2 uncertain parameters and uncertain initial conditions (up to 3), a covering part of ways of declaring x joint/separate x numeric/symbolic mean x order 1-2 x number of samples x chance constraints x tracked expressions x optimisation variables and further constraints x initial time; refused declarations; costs and constraints that are not supported; solved conversions",
               "thorough": "the full product"},
              ["expansion factors come from the code's own get_ls_factor (C27); problems whose constraints contain states, or with terminal or per-element costs, are refused by the converter"])
