"""C18: solutions are the optimum of the stated problem (linear-quadratic family, exact references)."""
import itertools

from . import core, transcribe as T
from .core import require

LQ = {
    "one": dict(n=(1, 0, 1, 0, 0), f=lambda t, x, y, u, p, th: [-0.4 * x[0] + u[0]], g=None, L=lambda t, x, y, u, p, th: x[0] * x[0] + 0.5 * u[0] * u[0]),
    "cross": dict(n=(1, 0, 1, 1, 1), f=lambda t, x, y, u, p, th: [0.3 * x[0] + 1.5 * u[0] + p[0] - th[0] * t], g=None,
                  L=lambda t, x, y, u, p, th: x[0] * x[0] + u[0] * u[0] + 0.5 * x[0] * u[0] + 0.6 * u[0] + (p[0] - 0.3) * (p[0] - 0.3) + (th[0] - t) * (th[0] - t)),
    "osc": dict(n=(2, 0, 1, 0, 0), f=lambda t, x, y, u, p, th: [x[1], -x[0] + u[0] + 0.3 * t], g=None,
                L=lambda t, x, y, u, p, th: x[0] * x[0] + 0.2 * x[1] * x[1] + u[0] * u[0] + 0.1 * t * x[0]),
    "mimo": dict(n=(2, 0, 2, 0, 0), f=lambda t, x, y, u, p, th: [-x[0] + 0.5 * x[1] + u[0], 0.2 * x[0] - 0.7 * x[1] + 0.3 * u[0] + u[1]], g=None,
                 L=lambda t, x, y, u, p, th: x[0] * x[0] + 2 * x[1] * x[1] + 0.5 * u[0] * u[0] + u[1] * u[1]),
    "dae": dict(n=(1, 1, 1, 1, 1), f=lambda t, x, y, u, p, th: [-x[0] + y[0]], g=lambda t, x, y, u, p, th: [y[0] - (0.5 * x[0] + u[0] + 0.5 * p[0] + th[0])],
                ysol=lambda t, x, u, p, th: [0.5 * x[0] + u[0] + 0.5 * p[0] + th[0]],
                L=lambda t, x, y, u, p, th: x[0] * x[0] + (y[0] - 1) * (y[0] - 1) + 0.3 * u[0] * u[0] + p[0] * p[0] + (th[0] - 0.2) * (th[0] - 0.2)),
}
VF = lambda x: 2 * x[0] * x[0] - 0.3 * x[0]
FIN = lambda x: x[-1] - 0.2


class Problem(T.Problem):
    def __init__(self, cfg):
        T.MODELS = dict(T.MODELS, **{"lq_" + k: v for k, v in LQ.items()})
        super().__init__(cfg)

    def bounds(self, kind, i):
        if kind == "u" and self.cfg.get("ub"):
            return self.cfg["ub"]
        return (-T.INF, T.INF)

    def build(self):
        import casadi as ca
        from yaocptool.modelling import OptimalControlProblem, SystemModel

        c, m = self.cfg, SystemModel(name="m")
        v = {}
        for nm, k, mk in (("x", self.nx, m.create_state), ("y", self.ny, m.create_algebraic_variable), ("u", self.nu, m.create_control),
                          ("p", self.np, m.create_parameter), ("th", self.nth, m.create_theta)):
            v[nm] = [mk("%s%d" % (nm, i)) for i in range(k)]
        a = (m.t, v["x"], v["y"], v["u"], v["p"], v["th"])
        m.include_equations(ode=ca.vertcat(*self.m["f"](*a)), x=m.x)
        if self.ny:
            m.include_equations(alg=ca.vertcat(*self.m["g"](*a)))
        o = OptimalControlProblem(m, name="prob", x_0=self.x_0, t_0=self.t0, t_f=self.tf)
        o.L = self.m["L"](*a)
        if c.get("V"):
            o.V = VF(v["x"])
        if c.get("final"):
            o.include_final_time_equality(FIN(v["x"]))
        if c.get("ub"):
            o.u_min, o.u_max = ca.DM([c["ub"][0]] * self.nu), ca.DM([c["ub"][1]] * self.nu)
        for i in self.p_opt:
            o.set_parameter_as_optimization_parameter(v["p"][i], -ca.DM.inf(1), ca.DM.inf(1))
        for i in self.th_opt:
            o.set_theta_as_optimization_theta(v["th"][i], -ca.DM.inf(1), ca.DM.inf(1))
        return o


# ---------------------------------------------------------------- direct: quadratic in the control points
def rollout(pr, n, dc, z, p, th, x0):
    """z = controls (n*dc*nu) then optimised p then optimised theta; returns (J, x at breakpoints)."""
    nu = pr.nu
    U = [[[z[(el * dc + k) * nu + i] for i in range(nu)] for k in range(dc)] for el in range(n)]
    off = n * dc * nu
    pv = T.full_vector(p, pr.p_opt, z[off: off + len(pr.p_opt)])
    off += len(pr.p_opt)
    dt = (pr.tf - pr.t0) / n
    x = list(x0) + [0.0]
    xs = [x]
    for el in range(n):
        tv = T.full_vector(th[el], pr.th_opt, z[off: off + len(pr.th_opt)])
        off += len(pr.th_opt)
        t = pr.t0 + el * dt
        x = T.rk4(pr, t, t + dt, x, U[el], t, dt, pv, tv, steps=20)
        xs.append(x)
    return x[-1] + (VF(x) if pr.cfg.get("V") else 0.0), xs


def direct_reference(pr, n, dc, p, th, x0):
    import numpy as np

    N = n * dc * pr.nu + len(pr.p_opt) + n * len(pr.th_opt)
    J = lambda z: rollout(pr, n, dc, list(z), p, th, x0)
    E = np.eye(N)
    j0, xs0 = J(np.zeros(N))
    jp = [J(E[i])[0] for i in range(N)]
    jm = [J(-E[i])[0] for i in range(N)]
    H, g = np.zeros((N, N)), np.zeros(N)
    for i in range(N):
        g[i] = (jp[i] - jm[i]) / 2
        H[i, i] = jp[i] + jm[i] - 2 * j0
        for k in range(i):
            H[i, k] = H[k, i] = J(E[i] + E[k])[0] - jp[i] - jp[k] + j0
    A, b = np.zeros((0, N)), np.zeros(0)
    if pr.cfg.get("final"):
        f0 = FIN(xs0[-1][: pr.nx])
        A = np.array([[FIN(J(E[i])[1][-1][: pr.nx]) - f0 for i in range(N)]])
        b = np.array([-f0])
    nb = n * dc * pr.nu
    lo, hi = pr.cfg["ub"] if pr.cfg.get("ub") else (None, None)
    best = None
    for act in itertools.product((0, -1, 1), repeat=nb) if pr.cfg.get("ub") else [(0,) * nb]:
        fixed = [i for i in range(nb) if act[i]]
        free = [i for i in range(N) if i not in fixed]
        z = np.zeros(N)
        for i in fixed:
            z[i] = lo if act[i] < 0 else hi
        m = A.shape[0]
        if len(free) < m:
            continue
        K = np.block([[H[np.ix_(free, free)], A[:, free].T], [A[:, free], np.zeros((m, m))]])
        r = np.concatenate([-(g[free] + H[np.ix_(free, fixed)] @ z[fixed]), b - A[:, fixed] @ z[fixed]])
        try:
            s = np.linalg.solve(K, r)
        except np.linalg.LinAlgError:
            continue
        z[free] = s[: len(free)]
        if pr.cfg.get("ub") and not all(lo - 1e-9 <= z[i] <= hi + 1e-9 for i in range(nb)):
            continue
        v = j0 + g @ z + 0.5 * z @ H @ z
        if best is None or v < best[0] - 1e-12:
            best = (v, z)
    if best is None:
        return None
    jj, xs = J(best[1])
    return jj, list(best[1]), xs


def run_direct(cfg, tr):
    import casadi as ca

    pr = Problem(cfg)
    n, dc = cfg["n"], cfg.get("dc", 1)
    p, th = T.data(pr, n)
    x0 = [1.1, -0.4][: pr.nx]
    ref = direct_reference(pr, n, dc, p, th, x0)
    if ref is None:
        tr.note("infeasible")
        return
    o, m = T.make_method(pr, cfg)
    res = m.solve(p=ca.DM(p) if p else None, theta={k: ca.DM(v) for k, v in th.items()} if pr.nth else None, x_0=ca.DM(x0 + [0.0]))
    tr.step()
    J, z, xs = ref
    require(res.success, "not-solved", lambda: "%s" % res.stats.get("return_status"))
    tol = cfg.get("tol", 2e-3)
    U = [T.floats(v) for r in res.u_data["values"] for v in r]
    flat = [q for v in U for q in v]
    nb = n * dc * pr.nu
    require(abs(float(res.objective_opt_problem) - J) <= tol * (1 + abs(J)), "objective", lambda: "%s, the optimum is %r" % (res.objective_opt_problem, J))
    require(len(flat) == nb and all(abs(a - b) <= 4 * tol for a, b in zip(flat, z)), "control", lambda: "%s, the optimum is %s" % (flat, z[:nb]))
    require(all(abs(a - b) <= 4 * tol for a, b in zip(T.floats(res.p_opt), z[nb:])), "parameters", lambda: "%s %s" % (res.p_opt, z[nb:]))
    for k, xk in enumerate(xs):
        got = T.floats(res.x_data["values"][k][0])[: pr.nx]
        require(all(abs(a - b) <= 4 * tol for a, b in zip(got, xk)), "state", lambda: "at breakpoint %d %s, the optimum is %s" % (k, got, xk))
    tr.state(sorted((k, repr(v)) for k, v in cfg.items()))


# ---------------------------------------------------------------- indirect: Pontryagin
def hamiltonian_system(pr, p, th):
    """Numeric (exact on quadratics) data of the reduced problem; returns rhs(t, x, lam, el) -> dx, dlam, u."""
    import numpy as np

    nx, nu = pr.nx, pr.nu

    def red(t, x, u, tv):
        y = pr.m["ysol"](t, x, u, p, tv) if pr.ny else []
        return list(pr.m["f"](t, x, y, u, p, tv)), pr.m["L"](t, x, y, u, p, tv)

    def parts(t, tv):
        w0 = [0.0] * (nx + nu)
        ev = lambda w: red(t, list(w[:nx]), list(w[nx:]), tv)
        f0, l0 = ev(w0)
        I = np.eye(nx + nu)
        fj = np.array([np.array(ev(I[i])[0]) - np.array(f0) for i in range(nx + nu)]).T
        lp = [ev(I[i])[1] for i in range(nx + nu)]
        lm = [ev(-I[i])[1] for i in range(nx + nu)]
        g = np.array([(a - b) / 2 for a, b in zip(lp, lm)])
        H = np.zeros((nx + nu, nx + nu))
        for i in range(nx + nu):
            H[i, i] = lp[i] + lm[i] - 2 * l0
            for k in range(i):
                H[i, k] = H[k, i] = ev(I[i] + I[k])[1] - lp[i] - lp[k] + l0
        return np.array(f0), fj, g, H

    def rhs(t, x, lam, tv):
        f0, fj, g, H = parts(t, tv)
        u = -np.linalg.solve(H[nx:, nx:], g[nx:] + H[nx:, :nx] @ x + fj[:, nx:].T @ lam)
        if pr.cfg.get("ub"):
            u = np.clip(u, *pr.cfg["ub"])
        w = np.concatenate([x, u])
        return f0 + fj @ w, -(g[:nx] + H[:nx] @ w + fj[:, :nx].T @ lam), u

    return rhs


def indirect_reference(pr, n, p, th, x0, per=24):
    """Returns (x(0), lam(0), x(tf), lam(tf)), trajectory sampler."""
    import numpy as np

    rhs = hamiltonian_system(pr, p, th)
    nx = pr.nx
    dt = (pr.tf - pr.t0) / n

    def shoot(lam0, at=()):
        z = np.concatenate([np.array(x0), np.array(lam0)])
        t = pr.t0
        out = []
        for el in range(n):
            tv = th[el]
            F = lambda tt, zz: np.concatenate(rhs(tt, zz[:nx], zz[nx:], tv)[:2])
            out.append(z)
            h = dt / per
            for _ in range(per):
                k1 = F(t, z)
                k2 = F(t + h / 2, z + h / 2 * k1)
                k3 = F(t + h / 2, z + h / 2 * k2)
                k4 = F(t + h, z + h * k3)
                z = z + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
                t += h
        out.append(z)
        return out

    def gradV(x):
        g = np.zeros(nx)
        if pr.cfg.get("V"):
            g[0] = 4 * x[0] - 0.3
        return g

    def defect(z):
        x, lam = z[:nx], z[nx:]
        r = lam - gradV(x)
        if pr.cfg.get("final"):
            r[-1] = FIN(x)
        return r

    if not pr.cfg.get("ub"):
        d0 = defect(shoot(np.zeros(nx))[-1])
        M = np.array([defect(shoot(e)[-1]) - d0 for e in np.eye(nx)]).T
        lam0 = np.linalg.solve(M, -d0)
    else:
        assert nx == 1 and not pr.cfg.get("final")
        lo, hi = -60.0, 60.0
        flo = defect(shoot([lo])[-1])[0]
        for _ in range(60):
            mid = (lo + hi) / 2
            fm = defect(shoot([mid])[-1])[0]
            if (fm > 0) == (flo > 0):
                lo, flo = mid, fm
            else:
                hi = mid
        lam0 = np.array([(lo + hi) / 2])
    return shoot(lam0), rhs


def run_indirect(cfg, tr):
    import casadi as ca
    import numpy as np
    from yaocptool.methods import IndirectMethod

    pr = Problem(cfg)
    n = cfg["n"]
    p, th = T.data(pr, n)
    pr.x_0 = [1.1, -0.4][: pr.nx]
    ref, rhs = indirect_reference(pr, n, p, th, pr.x_0)
    o = pr.build()
    m = IndirectMethod(o, create_cost_state=cfg.get("cost_state", False), finite_elements=n, degree=cfg["d"], discretization_scheme=cfg["scheme"],
                       integrator_type=cfg.get("integrator", "implicit"))
    res = m.solve(p=ca.DM(p) if p else None, theta={k: ca.DM(v) for k, v in th.items()} if pr.nth else None)
    tr.step()
    require(res.success, "not-solved", lambda: "%s" % res.stats.get("return_status"))
    tol = 2e-2 if cfg.get("ub") else 3e-3
    if cfg["scheme"] == "multiple-shooting":
        tol = max(tol, 5e-3)
    nx = pr.nx
    for k, z in enumerate(ref):
        got = T.floats(res.x_data["values"][k][0])
        require(all(abs(a - b) <= tol * (1 + abs(b)) for a, b in zip(got[: 2 * nx], z)), "trajectory", lambda: "at breakpoint %d %s, the optimum is %s" % (k, got, z.tolist()))
    # the reported control is the optimal one at the reported states
    if cfg["scheme"] == "collocation":
        taus = T.radau(cfg["d"])
        dt = (pr.tf - pr.t0) / n
        for el in range(n):
            for j, u in enumerate(res.u_data["values"][el]):
                t = float(res.u_data["time"][el][j])
                te = pr.t0 + el * dt + taus[j] * dt
                require(abs(t - te) < 1e-9, "control-time", lambda: "%r, expected %r" % (t, te))
                xx = np.array(T.floats(res.x_data["values"][el][j + 1]))
                ue = rhs(t, xx[:nx], xx[nx: 2 * nx], th[el])[2]
                require(all(abs(a - b) <= 1e-5 * (1 + abs(b)) for a, b in zip(T.floats(u), ue)), "control", lambda: "at %r %s, optimal control %s" % (t, u, ue))
    if cfg.get("cost_state"):
        # x_c_final is the running cost: compare by quadrature of the reference
        J = 0.0
        dt = (pr.tf - pr.t0) / n
        for el in range(n):
            z = np.concatenate([ref[el], [0.0]])
            h = dt / 24
            t = pr.t0 + el * dt

            def F(tt, zz):
                dx, dl, u = rhs(tt, zz[:nx], zz[nx: 2 * nx], th[el])
                y = pr.m["ysol"](tt, list(zz[:nx]), list(u), p, th[el]) if pr.ny else []
                return np.concatenate([dx, dl, [pr.m["L"](tt, list(zz[:nx]), y, list(u), p, th[el])]])

            for _ in range(24):
                k1 = F(t, z)
                k2 = F(t + h / 2, z + h / 2 * k1)
                k3 = F(t + h / 2, z + h / 2 * k2)
                k4 = F(t + h, z + h * k3)
                z = z + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
                t += h
            J += z[-1]
        require(abs(float(res.x_c_final) - J) <= 5 * tol * (1 + abs(J)), "running-cost", lambda: "%s, expected %r" % (res.x_c_final, J))
    tr.state(sorted((k, repr(v)) for k, v in cfg.items()))


def build(tier):
    from yaocptool import config
    import yaocptool.methods  # noqa: F401

    config.SOLVER_OPTIONS["nlpsol_options"]["ipopt.linear_solver"] = "mumps"
    T.MODELS.update({"lq_" + k: v for k, v in LQ.items()})
    th = tier == "thorough"
    direct, ind = [], []
    for k, v in LQ.items():
        nu = v["n"][2]
        for scheme in ("collocation", "multiple-shooting"):
            for n in (2, 3) if not th else (1, 2, 3, 4):
                for dc in (1, 2):
                    if nu * n * dc > (6 if th else 4):
                        continue
                    for t0 in (0.0, 0.7):
                        for Vf, fin in itertools.product((False, True), repeat=2):
                            for ub in (None, (-0.35, 0.25), (-5.0, -0.1)):
                                for po, to in (((), ()), ((0,), ()), ((0,), (0,)), ((), (0,))) if v["n"][3] else (((), ()),):
                                    if (po or to) and (ub or (Vf and fin)) and not th:
                                        continue
                                    for s in (False, True) if scheme == "multiple-shooting" else (False,):
                                        if s and (fin or t0):
                                            continue
                                        direct.append(dict(scheme=scheme, model="lq_" + k, n=n, d=3, dc=dc, t0=t0, tf=t0 + 1.2, V=Vf, final=fin, ub=ub, p_opt=po, th_opt=to, as_sum=s,
                                                           integrator="implicit" if v["n"][1] else "explicit"))
        for scheme in ("collocation", "multiple-shooting"):
            for d in (2, 3) if scheme == "collocation" else (2,):
                for n in (4,) if not th else (3, 4, 6):
                    for t0 in (0.0, 0.7):
                        for Vf, fin in itertools.product((False, True), repeat=2):
                            for ub in (None, (-0.35, 0.25), (-5.0, -0.1)):
                                if ub and (fin or v["n"][0] > 1 or (v["n"][1] and scheme == "multiple-shooting")):
                                    continue
                                for cs in (False, True):
                                    ind.append(dict(scheme=scheme, model="lq_" + k, n=n, d=d, t0=t0, tf=t0 + 1.2, V=Vf, final=fin, ub=ub, cost_state=cs,
                                                    integrator="implicit" if v["n"][1] else "explicit"))
    return [core.Suite("direct", direct, run_direct), core.Suite("indirect", ind, run_indirect)]


if __name__ == "__main__":
    core.main("C18", build,
              {"quick": "5 linear-quadratic problems (ODE, DAE, time-dependent, parameters, thetas) x 2 methods x 2 schemes x elements x control degree x initial times x final cost x final constraint x control bounds x optimised parameters, solved with IPOPT",
               "thorough": "1-6 elements, up to 6 control points"},
              ["direct references enumerate every active set of the exact finite-dimensional quadratic program; indirect references solve Pontryagin's boundary value problem",
               "bounded controls in the indirect method with DAE and multiple shooting are not explored (IDAS sensitivities of the clipped control fail in the solver)",
               "tolerances: 2e-3 direct, 3e-3 to 2e-2 indirect"])
