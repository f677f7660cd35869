"""C17: results report the solver's solution, each value at its own time and under its own name."""
import itertools

from . import core, transcribe as T
from .core import require


def near(a, b, tol=1e-9):
    return len(a) == len(b) and all(abs(x - y) <= tol * (1 + abs(y)) for x, y in zip(a, b))


def run(cfg, tr):
    import casadi as ca

    pr = T.Problem(cfg)
    o, m = T.make_method(pr, cfg)
    rec = T.record(m)
    n, dc, col = cfg["n"], cfg.get("dc", 1), cfg["scheme"] == "collocation"
    dt = (pr.tf - pr.t0) / n
    results = []
    for step in range(cfg.get("solves", 1)):
        p, th = T.data(pr, n, salt=step)
        x_0 = [0.55 + step, -0.15][: pr.nx] + [0.0]
        rec.point = lambda i, s=step: T.gen(i + 17 * s)
        res = m.solve(p=ca.DM(p) if p else None, theta={k: ca.DM(v) for k, v in th.items()} if pr.nth else None, x_0=ca.DM(x_0),
                      initial_guess=ca.DM.zeros(m.opt_problem.x.numel()))
        results.append((res, rec.calls[-1], p, th))
        tr.step()
    taus = [0.0] + T.radau(cfg["d"]) if col else None
    utaus = [0.0] if dc == 1 else T.radau(dc)
    brk = [pr.t0 + k * dt for k in range(n + 1)]
    names = dict(x=["x%d" % i for i in range(pr.nx)], y=["y%d" % i for i in range(pr.ny)], u=["u%d" % i for i in range(pr.nu)])
    for res, call, p, th in results:  # all of them after the last solve: earlier results must not change
        X, Y, U, eta, p_opt, th_opt = T.unpack(m, call["x"])
        fl = lambda q: [[T.floats(e) for e in r] for r in q]
        require(fl(res.x_data["values"]) == X, "x-values", lambda: "%s" % res.x_data["values"])
        require(fl(res.y_data["values"]) == Y, "y-values", lambda: "%s" % res.y_data["values"])
        require(not pr.nu or fl(res.u_data["values"]) == U, "u-values", lambda: "%s" % res.u_data["values"])
        tx = [[t + tau * dt for tau in taus] for t in brk[:-1]] if col else [[t] for t in brk]
        ty = [[t + tau * dt for tau in taus[1:]] for t in brk[:-1]] if col else [[t] for t in brk[1:]]
        tu = [[t + tau * dt for tau in utaus] for t in brk[:-1]]
        for nm, got, exp in (("x", res.x_data["time"], tx), ("y", res.y_data["time"], ty), ("u", res.u_data["time"], tu)):
            got = [[float(q) for q in r] for r in got][: len(exp)]
            require(len(got) == len(exp) and all(near(a, b) for a, b in zip(got, exp)), "time-grid:" + nm, lambda: "%s, expected %s" % (got, exp))
        require(near([float(q) for q in res.time_breakpoints], brk), "time-breakpoints", lambda: "%s, expected %s" % (res.time_breakpoints, brk))
        require((float(res.t_0), float(res.t_f)) == (pr.t0, pr.tf), "horizon", lambda: "%s %s" % (res.t_0, res.t_f))
        require(T.floats(res.p_opt) == p_opt and [T.floats(v) for v in res.theta_opt] == th_opt, "optimised-parameters", "")
        require(near(T.floats(res.p), T.full_vector(p, pr.p_opt, p_opt)), "p", lambda: "%s" % res.p)
        require(all(near(T.floats(res.theta[el]), T.full_vector(th[el], pr.th_opt, th_opt[el])) for el in range(n)), "theta", lambda: "%s" % res.theta)
        require(near(T.floats(res.objective_opt_problem), T.floats(call["f"])), "objective", "")
        require(T.floats(res.raw_decision_variables) == T.floats(call["x"]), "raw", "")
        require(res.success is True, "success", "")
        require(pr.t0 < 0 or res.is_valid is True, "is-valid", "a complete result is not valid")
        require((res.finite_elements, res.degree_control, res.discretization_scheme, res.problem_name) == (n, dc, cfg["scheme"], "prob"), "settings", "")
        require(near(T.floats(res.x_c_final), [X[-1][-1][-1]]), "cost-state-final", lambda: "%s" % res.x_c_final)
        require(res.x_names[: pr.nx] == names["x"] and len(res.x_names) == pr.nx + 1 and res.y_names == names["y"] and res.u_names == names["u"], "names", lambda: "%s %s %s" % (res.x_names, res.y_names, res.u_names))
        require(res.theta_opt_names == ["th%d" % i for i in pr.th_opt], "theta-names", lambda: "%s" % res.theta_opt_names)
        if pr.nu:
            require(T.floats(res.first_control()) == U[0][0], "first-control", "")
            require([T.floats(v) for v in res.first_control_parameters()] == U[0], "first-control-parameters", "")
        for kind, V, k in (("x", X, pr.nx), ("y", Y, pr.ny), ("u", U, pr.nu)):
            for i in range(k):
                e = [[[v[i]] for v in r] for r in V]
                require(fl(res.get_variable(kind, i)) == e, "get_variable", lambda: "%s %d" % (kind, i))
                require(fl(res.get_variable_by_name(names[kind][i])) == e, "get_variable_by_name", lambda: names[kind][i])
            if k > 1:
                require(fl(res.get_variable(kind, [1, 0])) == [[[v[1], v[0]] for v in r] for r in V], "get_variable-list", "")
        try:
            res.get_variable_by_name("nope")
        except ValueError:
            pass
        else:
            require(False, "unknown-name-accepted", "")
        # the data set
        xt, yt, ut = tx + ([[pr.tf]] if col else []), ty, tu
        for ds in (res.to_dataset(), res.dataset):
            for nm, V, t, k in (("x", X, xt, pr.nx), ("y", Y, yt, pr.ny), ("u", U, ut, pr.nu)):
                if not k:
                    continue
                ee = sorted((round(tt, 9), tuple(v)) for tr_, r in zip(t, V) for tt, v in zip(tr_, r))
                en = ds.data[nm]
                time, val = T.floats(en.time), en.values
                gg = sorted((round(time[j], 9), tuple(T.floats(val[:, j]))) for j in range(len(time)))
                require(val.shape[1] == len(time) and len(gg) == len(ee) and all(near([a[0]], [b[0]], 1e-8) and near(a[1], b[1]) for a, b in zip(gg, ee)), "dataset:" + nm,
                        lambda: "%s\nexpected %s" % (gg, ee))
                require(list(ds.get_entry_names(nm))[:k] == names[nm], "dataset-names:" + nm, "")
            if pr.th_opt:
                en = ds.data["theta_opt"]
                require(near(T.floats(en.time), brk[:-1]) and all(near(T.floats(en.values[:, el]), th_opt[el]) for el in range(n)), "dataset:theta_opt", lambda: "%s %s" % (en.time, en.values))
    tr.state(sorted((k, repr(v)) for k, v in cfg.items()))


def build(tier):
    import yaocptool.methods  # noqa: F401

    th = tier == "thorough"
    out = []
    for scheme in ("collocation", "multiple-shooting"):
        for model in T.MODELS:
            for d in ((1, 2, 3, 4) if th else (1, 2, 3)) if scheme == "collocation" else (3,):
                for dc in (1, 2, 3) if T.MODELS[model]["n"][2] else (1,):
                    for n in (1, 2, 3) if not th else (1, 2, 3, 4, 7):
                        for t0 in (0.0, 1.5, -0.3):
                            for po, to in (((), ()), ((1,), (2, 0)), ((0,), (0, 1)), ((2, 0), (1, 0))):
                                if (po or to) and not any(T.MODELS[model]["n"][3:]):
                                    continue
                                out.append(dict(scheme=scheme, model=model, d=d, dc=dc, n=n, t0=t0, tf=t0 + 1.2, p_opt=po, th_opt=to, solves=3 if n == 2 else 1, V=True, integrator="explicit" if not T.MODELS[model]["n"][1] else "implicit"))
    for scheme in ("collocation", "multiple-shooting"):
        for model in T.MODELS:
            for d, dc, n in ((5, 1, 6), (2, 5, 5), (1, 1, 12), (7, 2, 2), (2, 3, 11)):
                out.append(dict(scheme=scheme, model=model, d=d, dc=dc if T.MODELS[model]["n"][2] else 1, n=n, t0=0.7, tf=3.0, p_opt=(2, 1), th_opt=(2, 1, 0), V=True, S=True))
    return [core.Suite("results", out, run)]


if __name__ == "__main__":
    core.main("C17", build,
              {"quick": "6 models x 2 schemes x state degree 1-3 x control degree 1-3 x 1-3 elements x 3 initial times x 4 choices of optimised parameters; histories of 3 solves; 5 larger grids (up to 12 elements, degree 7)",
               "thorough": "degree 1-4, up to 7 elements"},
              ["the NLP solver is replaced by one returning a generic point"])
