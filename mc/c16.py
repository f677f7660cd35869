"""C16: every solve uses exactly the data of that call."""
import itertools
import math

from . import core, transcribe as T
from .core import require


def lists(v):
    return T.floats(v)


# one call: (x_0, p, theta, last_u, guess), each a form
X0 = ("none", "dm", "list")
P = ("none", "dm", "list", "dm2")
TH = ("none", "dm", "dm2", "rev")
LU = ("none", "dm", "list")
GUESS = ("none", "dm", "dict")


def call_data(pr, cfg, c, step):
    """Concrete values of one call: (kwargs builder, values)."""
    import casadi as ca

    n = cfg["n"]
    kx, kp, kt, kl, kg = c
    x_0 = None if kx == "none" else [0.5 + 0.1 * step - 0.3 * i for i in range(pr.nx)] + [0.0]
    p, th = T.data(pr, n, salt=1 + step + (7 if kp.endswith("2") else 0))
    if kt.endswith("2"):
        th = {k: [v + 0.21 for v in q] for k, q in th.items()}
    lu = None if kl == "none" else [0.35 + 0.1 * i + 0.05 * step for i in range(pr.nu)]
    kw = {}
    if x_0 is not None:
        kw["x_0"] = ca.DM(x_0) if kx == "dm" else list(x_0)
    if kp != "none":
        kw["p"] = list(p) if kp == "list" else ca.DM(p)
    if kt != "none":
        kw["theta"] = {k: ca.DM(q) for k, q in (reversed(th.items()) if kt == "rev" else th.items())}
    if lu is not None:
        kw["last_u"] = ca.DM(lu) if kl == "dm" else list(lu)
    return kw, dict(x_0=x_0, p=p if kp != "none" else None, theta=th if kt != "none" else None, last_u=lu)


def freeze(v):
    import casadi as ca

    if isinstance(v, dict):
        return tuple(sorted((k, freeze(q)) for k, q in v.items()))
    if isinstance(v, ca.DM):
        return ("DM", v.shape, tuple(lists(v)))
    if isinstance(v, list):
        return ("list", tuple(v))
    return v


def reference_guess(pr, cfg, o, m, p, th):
    """What the documented heuristics give, in the layout's own nesting."""
    n, d, dc = cfg["n"], cfg.get("d", 3), cfg.get("dc", 1)
    x0 = list(pr.x_0) + [0.0]
    g = bool(cfg.get("guess"))
    y = [0.3 + 0.1 * i for i in range(pr.ny)] if g else [0.0] * pr.ny
    lu = [0.15 * (i + 1) for i in range(pr.nu)] if cfg.get("last_u_problem") else None
    po = [p[i] for i in pr.p_opt]
    to = [[th[el][i] for i in pr.th_opt] for el in range(n)]
    col = cfg["scheme"] == "collocation"
    if cfg["heuristic"] == "problem_info":
        u = [0.2 + 0.1 * i for i in range(pr.nu)] if g else [0.0] * pr.nu
        X = [[x0] * (d + 1)] * n + [[x0]] if col else [[x0]] * (n + 1)
        Y = [[y] * d] * n if col else [[y]] * n
    else:
        u = [0.2 + 0.1 * i for i in range(pr.nu)] if g else (lu if lu is not None else [0.0] * pr.nu)
        dt = (pr.tf - pr.t0) / n
        X, Y, x = [], [], x0
        if not col:
            X.append([x0])
        for el in range(n):
            t_k = pr.t0 + el * dt
            xs, ys, t = [x], [], t_k
            for tau in T.radau(d) if col else [1.0]:
                t1 = t_k + tau * dt
                x = T.rk4(pr, t, t1, x, [u] if pr.nu else [], t_k, dt, p, th[el])
                xs.append(x)
                ys.append(pr.m["ysol"](t1, x[: pr.nx], u, p, th[el]) if pr.ny else [])
                t = t1
            X.append(xs if col else [x])
            Y.append(ys)
        if col:
            X.append([x])
    U = [[u] * (dc if pr.nu else 0)] * n
    return X, Y, U, [], po, to


def close(a, b, tol):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    return abs(a - b) <= tol * (1 + abs(b))


def run(sc, tr):
    import casadi as ca

    cfg, calls = sc
    pr = T.Problem(cfg)
    o, m = T.make_method(pr, cfg)
    rec = T.record(m)
    n = cfg["n"]
    N = m.opt_problem.x.numel()
    lam = m.opt_problem.g.numel()
    prob_x0 = list(pr.x_0) + [0.0]
    prob_lu = [0.15 * (i + 1) for i in range(pr.nu)] if cfg.get("last_u_problem") else None
    lu_par = bool(cfg.get("last_u_par") or prob_lu)
    tol = 1e-7 if cfg["scheme"] == "collocation" else 2e-4
    for step, c in enumerate(calls):
        if c[0] == "set_x0":  # the problem's initial condition is changed between the calls
            prob_x0 = [0.9 + step, -1.1][: pr.nx] + [0.0]
            o.x_0 = ca.DM(prob_x0)
            tr.step()
            continue
        if c[0] == "set_last_u":
            prob_lu = [-0.4 - 0.1 * i for i in range(pr.nu)]
            o.last_u = ca.DM(prob_lu)
            tr.step()
            continue
        kw, val = call_data(pr, cfg, c, step)
        kg = c[4]
        gx = ca.DM([T.gen(3 * i + step) for i in range(N)])
        if kg == "dm":
            kw["initial_guess"] = gx
        elif kg == "dict":
            kw["initial_guess_dict"] = dict(x=gx, lam_x=ca.DM([T.gen(i + 5) for i in range(N)]), lam_g=ca.DM([T.gen(i + 9) for i in range(lam)]))
        before = freeze(kw)
        point = lambda i, s=step: T.gen(i * 2 + 31 * s)
        rec.point = point
        ncalls = len(rec.calls)
        need_p = pr.np > 0 and len(pr.p_opt) != pr.np
        need_th = pr.nth > 0 and len(pr.th_opt) != pr.nth
        refuse = (need_p and val["p"] is None) or (need_th and val["theta"] is None) or (lu_par and val["last_u"] is None and prob_lu is None)
        try:
            res = m.solve(**kw)
        except core.Disagreement:
            raise
        except Exception as e:
            if refuse:
                require(len(rec.calls) == ncalls, "refused-late", "")
                tr.step()
                continue
            raise
        require(not refuse, "missing-data-accepted", lambda: "call %s was accepted" % (c,))
        require(freeze(kw) == before, "arguments-modified", lambda: "%s\n -> %s" % (before, freeze(kw)))
        call = rec.calls[-1]
        p = val["p"] if val["p"] is not None else [0.0] * pr.np
        th = val["theta"] if val["theta"] is not None else {el: [0.0] * pr.nth for el in range(n)}
        x_0 = val["x_0"] if val["x_0"] is not None else prob_x0
        lu = (val["last_u"] if val["last_u"] is not None else prob_lu) if lu_par else None
        T.check_nlp(pr, cfg, call, m, p, th, x_0, lu, tol)
        if kg != "none":
            require(call["initial_guess"] is not None and lists(call["initial_guess"]) == lists(gx), "guess-not-used", "")
            if kg == "dict":
                require(call["lam_x"] is not None and lists(call["lam_x"]) == lists(kw["initial_guess_dict"]["lam_x"])
                        and call["lam_g"] is not None and lists(call["lam_g"]) == lists(kw["initial_guess_dict"]["lam_g"]), "multipliers-not-used", "")
        elif not any(q[0].startswith("set_") for q in calls):
            got = T.unpack(m, call["initial_guess"])
            exp = reference_guess(pr, cfg, o, m, p, th)
            for nm, a, b in zip(("x", "y", "u", "eta", "p_opt", "theta_opt"), got, exp):
                require(close(a, b, 2e-3), "initial-guess:" + nm, lambda: "%s, expected %s" % (a, b))
        # what the result says was used
        X, Y, U, eta, p_opt, th_opt = T.unpack(m, call["x"])
        require(close(lists(res.x_0), x_0, 1e-12), "result-x_0", lambda: "%s" % res.x_0)
        require(close(lists(res.p), T.full_vector(p, pr.p_opt, p_opt), 1e-12), "result-p", lambda: "%s for %s" % (res.p, p))
        require(sorted(res.theta) == list(range(n)) and all(close(lists(res.theta[el]), T.full_vector(th[el], pr.th_opt, th_opt[el]), 1e-12) for el in range(n)), "result-theta", lambda: "%s" % res.theta)
        tr.step()
    tr.state((sorted((k, repr(v)) for k, v in cfg.items()), calls))


def run_options(sc, tr):
    """Options of one method never leak into another, nor into the configuration or the caller's dictionary."""
    import copy
    from yaocptool import config
    from yaocptool.methods import DirectMethod

    before = copy.deepcopy(config.SOLVER_OPTIONS)
    made = []
    for kind in sc:
        pr = T.Problem(dict(model="int"))
        if kind == "default":
            given = None
            m = DirectMethod(pr.build())
        elif kind == "touch":
            given = None
            m = DirectMethod(pr.build())
            m.nlpsol_opts["ipopt.tol"] = 1e-3 * (1 + len(made))
        elif kind == "falsy":
            given = {"expand": False, "ipopt.max_iter": 0, "print_time": False, "ipopt.linear_solver": ""}
            m = DirectMethod(pr.build(), nlpsol_opts=given)
        else:
            given = {"ipopt.max_iter": 10 + len(made), "ipopt.acceptable_tol": 1e-4}
            m = DirectMethod(pr.build(), nlpsol_opts=given)
        exp = dict(before["nlpsol_options"])
        if kind == "touch":
            exp["ipopt.tol"] = 1e-3 * (1 + len(made))
        if kind == "falsy":
            exp.update({"expand": False, "ipopt.max_iter": 0, "print_time": False, "ipopt.linear_solver": ""})
        elif given:
            exp.update({"ipopt.max_iter": 10 + len(made), "ipopt.acceptable_tol": 1e-4})
        made.append((m, exp, given, dict(given) if given else None))
        m.create_optimization_problem()
        tr.step()
        for k, (mm, e, g, g0) in enumerate(made):
            require(dict(mm.nlpsol_opts) == e, "options-leak", lambda: "method %d has %s, expected %s" % (k, mm.nlpsol_opts, e))
            require(dict(mm.opt_problem.solver_options) == e, "options-not-used", lambda: "%s" % mm.opt_problem.solver_options)
            require(g == g0, "options-argument-modified", lambda: "%s -> %s" % (g0, g))
        require(config.SOLVER_OPTIONS == before, "configuration-modified", "")
    tr.state(sc)


def build(tier):
    import yaocptool.methods  # noqa: F401

    th = tier == "thorough"
    out = []
    base = [dict(model="full", p_opt=(1,), th_opt=(2, 0)), dict(model="dae", p_opt=(0,), th_opt=(0,)), dict(model="two", p_opt=()), dict(model="int"),
            dict(model="free", p_opt=(0,))]
    for scheme in ("collocation", "multiple-shooting"):
        for b in base:
            pr = T.Problem(b)
            for heur in ("problem_info", "simulation"):
                for guess in (False, True):
                    for lup, lupar in ((False, False), (True, False), (False, True)) if pr.nu else ((False, False),):
                        for dc in (1, 2) if pr.nu and not (lup or lupar) else (1,):
                            cfg = dict(b, scheme=scheme, n=2, d=2, dc=dc, t0=0.5, tf=1.7, heuristic=heur, guess=guess, last_u_problem=lup, last_u_par=lupar, S=True, V=True,
                                       du="all" if (lup or lupar) else "none", final=True)
                            forms = [c for c in itertools.product(X0, P if pr.np else ("none",), TH if pr.nth else ("none",), LU if (lup or lupar) else ("none",), GUESS)]
                            # every single call
                            for key in {(c[0], c[4]): None for c in forms}:
                                out.append((cfg, tuple(c for c in forms if (c[0], c[4]) == key)))
                            # histories of calls (reduced forms), with the problem changed in between
                            few = [("none", "dm", "dm", "none", "none"), ("dm", "dm2", "dm2", "dm", "none"), ("list", "list", "dm", "list", "dm"), ("none", "none", "none", "none", "none")]
                            few = [(a, bb if pr.np else "none", cc if pr.nth else "none", dd if (lup or lupar) else "none", ee) for a, bb, cc, dd, ee in few]
                            few = list(dict.fromkeys(few)) + [("set_x0",)] + ([("set_last_u",)] if (lup or lupar) else [])
                            if heur == "problem_info" or th:
                                for k in (2, 3) if th else (3,) if (scheme == "collocation" and not guess and dc == 1) else (2,):
                                    out += [(cfg, s) for s in itertools.product(few, repeat=k)]
                            if not (lup or lupar):
                                c2 = dict(cfg, x0_const=True)
                                out += [(c2, s) for k in (1, 2) for s in itertools.product([f for f in few if f[0] == "none"], repeat=k)]
    # more elements
    for scheme in ("collocation", "multiple-shooting"):
        for heur in ("problem_info", "simulation"):
            for b, guess in itertools.product(base[:2], (False, True)):
                cfg = dict(b, scheme=scheme, n=12, d=1, dc=1, t0=0.5, tf=1.7, heuristic=heur, guess=guess, last_u_problem=False, last_u_par=False, S=True, V=True, du="none", final=True)
                pr = T.Problem(b)
                calls = [("dm", "dm", "dm", "none", "none"), ("list", "dm2", "dm2", "none", "dm"), ("none", "list", "dm", "none", "none")]
                calls = [(a, p if pr.np else "none", t if pr.nth else "none", l, g) for a, p, t, l, g in calls]
                out += [(cfg, c) for c in itertools.permutations(calls, 2)]
    opts = [s for k in (1, 2, 3) for s in itertools.product(("default", "touch", "given", "falsy"), repeat=k)]
    return [core.Suite("calls", out, run), core.Suite("options", opts, run_options)]


if __name__ == "__main__":
    core.main("C16", build,
              {"quick": "5 models x 2 schemes x 2 guess heuristics x stored/absent guesses x last-control modes: every form of a single call (initial condition, parameters, thetas, last control, guess), all histories of 2-3 calls and problem changes; histories of 2 calls on 12 elements; all histories of 3 method constructions with options",
               "thorough": "histories of 3 calls under both heuristics and schemes"},
              ["the NLP solver is replaced by a recorder that evaluates the NLP it is given"])
