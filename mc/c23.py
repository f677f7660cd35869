"""C23: the MPC loop applies, at every iteration, the optimal first control for the current measurement."""
import itertools

from . import c22, core, transcribe as T
from .core import require

# OCP models (plant dynamics are the same; "perm" has the OCP states in another order than the plant)
LQ = {
    "one": dict(n=(1, 0, 1, 0, 0), f=lambda t, x, y, u, p, th: [-0.4 * x[0] + u[0]], L=lambda x, y, u, p, th: x[0] * x[0] + 0.5 * u[0] * u[0]),
    "two": dict(n=(2, 0, 2, 0, 0), f=lambda t, x, y, u, p, th: [-x[0] + 0.5 * x[1] + u[0], 0.2 * x[0] - 0.7 * x[1] + 0.3 * u[0] + u[1]],
                L=lambda x, y, u, p, th: x[0] * x[0] + 2 * x[1] * x[1] + 0.5 * u[0] * u[0] + u[1] * u[1]),
    "par": dict(n=(2, 0, 1, 2, 1), f=lambda t, x, y, u, p, th: [x[1] + 0.5 * p[0], -x[0] + u[0] + p[1] - th[0]],
                L=lambda x, y, u, p, th: x[0] * x[0] + 0.5 * x[1] * x[1] + u[0] * u[0] + p[0] * u[0]),
    "dae": dict(n=(1, 1, 1, 0, 0), f=lambda t, x, y, u, p, th: [-x[0] + y[0]], ysol=lambda t, x, u, p, th: [0.5 * x[0] + u[0]],
                L=lambda x, y, u, p, th: x[0] * x[0] + (y[0] - 1) * (y[0] - 1) + 0.3 * u[0] * u[0]),
}
for _v in LQ.values():
    _v.setdefault("ysol", lambda t, x, u, p, th: [])
    _v["y"] = _v["ysol"]
TS = 0.4
TH = [0.35]


def perm(cfg, v):
    return list(reversed(v)) if cfg.get("perm") else list(v)


def build_method(cfg, md):
    """The OCP and its solution method; under cfg['perm'] the OCP lists the states in reversed order."""
    import casadi as ca
    from yaocptool.methods import DirectMethod
    from yaocptool.modelling import OptimalControlProblem, SystemModel

    nx, ny, nu, np_, nth = md["n"]
    m = SystemModel(name="m")
    v = []
    for nm, k, mk in (("x", nx, m.create_state), ("y", ny, m.create_algebraic_variable), ("u", nu, m.create_control),
                      ("p", np_, m.create_parameter), ("th", nth, m.create_theta)):
        v.append([mk("%s%d" % (nm, i)) for i in range(k)])
    xs, y, u, p, th = v
    x = perm(cfg, xs)
    m.include_equations(ode=ca.vertcat(*perm(cfg, md["f"](m.t, x, y, u, p, th))), x=m.x)
    if ny:
        m.include_equations(alg=ca.vertcat(*[a - b for a, b in zip(y, md["ysol"](m.t, x, u, p, th))]))
    n = cfg["n"]
    o = OptimalControlProblem(m, name="prob", x_0=[0.0] * nx, t_0=0.0, t_f=TS * n)
    o.L = md["L"](x, y, u, p, th)
    kw = {}
    if cfg.get("du"):
        o.delta_u_min, o.delta_u_max = ca.DM([-cfg["du"]] * nu), ca.DM([cfg["du"]] * nu)
        kw["last_control_as_parameter"] = True
    return DirectMethod(o, finite_elements=n, degree=3, degree_control=cfg["dc"], discretization_scheme=cfg["scheme"],
                        integrator_type="implicit" if ny else "explicit", **kw)


def rollout(md, n, dc, z, x0, p, th):
    nx, ny, nu = md["n"][:3]
    x = list(x0) + [0.0]

    for el in range(n):
        pts = [[z[(el * dc + k) * nu + i] for i in range(nu)] for k in range(dc)]

        def F(s, w):
            u = T.control_at(pts, s / TS)
            y = md["ysol"](0, w[:nx], u, p, th)
            return md["f"](0, w[:nx], y, u, p, th) + [md["L"](w[:nx], y, u, p, th)]

        h = TS / 20
        s = 0.0
        for _ in range(20):
            k1 = F(s, x)
            k2 = F(s + h / 2, [a + h / 2 * b for a, b in zip(x, k1)])
            k3 = F(s + h / 2, [a + h / 2 * b for a, b in zip(x, k2)])
            k4 = F(s + h, [a + h * b for a, b in zip(x, k3)])
            x = [a + h / 6 * (b + 2 * c + 2 * d + e) for a, b, c, d, e in zip(x, k1, k2, k3, k4)]
            s += h
    return x[-1]


_quad = {}


def quad(model, n, dc):
    """J(z, w) = 1/2 [z w 1] Q [z w 1]' with w = (x0, p, theta): fitted exactly from roll-outs."""
    key = (model, n, dc)
    if key not in _quad:
        import numpy as np

        md = LQ[model]
        nx, ny, nu, np_, nth = md["n"]
        nz = n * dc * nu
        N = nz + nx + np_ + nth
        J = lambda v: rollout(md, n, dc, v[:nz], v[nz: nz + nx], v[nz + nx: nz + nx + np_], v[nz + nx + np_:])
        E = np.eye(N)
        j0 = J(np.zeros(N))
        jp = [J(E[i]) for i in range(N)]
        H, g = np.zeros((nz, N)), np.zeros(nz)
        for i in range(nz):
            jm = J(-E[i])
            g[i] = (jp[i] - jm) / 2
            for k in range(N):
                H[i, k] = jp[i] + jm - 2 * j0 if i == k else J(E[i] + E[k]) - jp[i] - jp[k] + j0
        _quad[key] = (nz, H, g)
    return _quad[key]


def optimal(cfg, x0, p, th, last_u):
    import numpy as np

    nz, H, g = quad(cfg["model"], cfg["n"], cfg["dc"])
    w = np.array(list(x0) + list(p) + list(th))
    z = -np.linalg.solve(H[:, :nz], g + H[:, nz:] @ w)
    nu = LQ[cfg["model"]]["n"][2]
    if cfg.get("du"):  # one element, one control: the clipped minimiser is the minimiser
        assert cfg["n"] == 1 and nu == 1 and cfg["dc"] == 1
        z = np.clip(z, last_u[0] - cfg["du"], last_u[0] + cfg["du"])
    return [[float(z[k * nu + i]) for i in range(nu)] for k in range(cfg["dc"])]


FIXED = {"a": [0.8, -0.5], "b": [-0.6, 0.9]}


class Stop(Exception):
    pass


_methods = {}


def method_for(cfg):
    key = tuple((k, cfg.get(k)) for k in ("model", "n", "dc", "scheme", "du", "perm"))
    if cfg.get("fresh") or key not in _methods:
        if len(_methods) > 8:
            _methods.clear()
        _methods[key] = build_method(cfg, LQ[cfg["model"]])
    return _methods[key]


def run_mpc(cfg, tr):
    import casadi as ca
    from yaocptool.estimation.estimator_abstract import EstimatorAbstract
    from yaocptool.mpc import MPC, PlantSimulation

    md = LQ[cfg["model"]]
    nx, ny, nu, np_, nth = md["n"]
    meth = method_for(cfg)
    sampling = cfg.get("sampling", 1)
    pcfg = dict(t0=cfg.get("t0", 0.0), ts=TS, c=cfg.get("c", "default"), sampling=sampling, u0=True, noise=False)
    yg = [0.3] * ny
    C = c22.cmat(pcfg["c"], nx, ny)
    pl = PlantSimulation(model=c22.build_model(md), x_0=ca.DM(c22.X0[:nx]), u_0=ca.DM(c22.U0[:nu]), y_guess=ca.DM(yg) if ny else ca.DM.zeros(0, 1), t_0=pcfg["t0"], t_s=TS,
                         c_matrix=None if pcfg["c"] == "default" else ca.DM(C), verbosity=0, super_samling=sampling)
    pp, pth = [0.2, -0.1][:np_], TH[:nth]
    if np_:
        pl.p = ca.DM(pp)
    if nth:
        pl.theta = ca.DM(pth)
    ref = c22.Ref(md, pcfg, yg, None)
    ref.p, ref.th = pp, pth
    seen = []

    class Estimator(EstimatorAbstract):
        """Distinct mean and covariance, both functions of everything it is given."""

        def __init__(self):
            pass

        def estimate(self, t_k, y_k, u_k):
            seen.append((float(t_k), c22.fl(y_k), c22.fl(u_k)))
            x, cov = estimate(*seen[-1])
            return ca.DM(x), ca.reshape(ca.DM(cov), nx, nx)

    def estimate(t, y, u):
        s = 0.1 * t + sum(0.2 * (i + 1) * v for i, v in enumerate(y)) + sum(0.05 * (i + 1) * v for i, v in enumerate(u))
        return [s + 0.3 * i for i in range(nx)], [0.01 * s + 0.02 * (i + 1) for i in range(nx * nx)]

    kw = dict(verbosity=cfg.get("verb", 0), include_cost_in_state_vector=not cfg.get("rearr"))
    est = None
    if cfg.get("est"):
        est = kw["estimator"] = Estimator()
    p0 = [0.7, -0.45][:np_]
    mean_i, cov_i = cfg.get("mean", ()), cfg.get("cov", ())
    if np_:
        kw["p"] = ca.DM(p0)
    if nth:
        kw["theta"] = {el: ca.DM([0.1]) for el in range(cfg["n"])}
    if mean_i:
        kw.update(mean_as_parameter=True, mean_p_indices=list(mean_i))
    if cov_i:
        kw.update(covariance_as_parameter=True, cov_p_indices=list(cov_i))
    if cfg.get("rearr"):
        kw["state_rearrangement_function"] = lambda x: ca.vertcat(ca.vertcat(*[x[i] for i in reversed(range(nx))]) if cfg.get("perm") else x, 0)
    hooks = cfg.get("hooks")

    class Hooked(MPC):
        def post_process_measurement(self, t, meas, u):
            return t, 1.5 * ca.DM(meas), u

        def post_process_states(self, x_k, cov_x_k):
            return x_k + ca.vertcat(0.1, ca.DM.zeros(x_k.numel() - 1, 1)), 3 * cov_x_k

    mpc = (Hooked if hooks else MPC)(pl, meth, **kw)
    n_est = 0
    tol = 2e-4

    def look(where):
        t, meas, u = pl.get_measurement()
        require(abs(float(t) - ref.t) < 1e-9, "time", lambda: "%s: time %s, expected %s" % (where, t, ref.t))
        require(c22.close(c22.fl(u), ref.u, tol), "control", lambda: "%s: control %s, expected %s" % (where, u, ref.u))
        require(c22.close(c22.fl(meas), ref.meas, tol), "measurement", lambda: "%s: measurement %s, expected %s" % (where, meas, ref.meas))
        tr.state((cfg["model"], round(ref.t, 6), [round(v, 4) for v in ref.x], [round(v, 4) for v in ref.u]))

    def ref_control():
        t, meas, u = ref.t, [1.5 * v if hooks else v for v in ref.meas], ref.u
        if est is not None:
            x, cov = estimate(t, meas, u)
        else:
            x, cov = meas[:nx], [0.0] * (nx * nx)
        if hooks:
            x, cov = [x[0] + 0.1] + x[1:], [3 * v for v in cov]
        p = list(p0)
        for a, b in mean_i:
            p[b] = x[a]
        for a, b in cov_i:
            p[b] = cov[a]
        z = optimal(cfg, x, p, [0.1][:nth], u)
        t0 = t
        ref.go(fun=lambda s: T.control_at(z, (s - t0) / TS))

    its = 0
    look("start")
    for op, arg in cfg["ops"]:
        if op == "run":
            if arg == 0:  # documented as endless: the plant ends it
                k, limit = [0], 3
                orig = pl.get_measurement

                def limited():
                    k[0] += 1
                    if k[0] > limit:
                        raise Stop()
                    return orig()

                pl.get_measurement = limited
                try:
                    mpc.run(0)
                    ended = True
                except Stop:
                    ended = False
                finally:
                    del pl.get_measurement
                require(not ended, "run-ended", "run(0) ended by itself")
                for _ in range(limit):
                    ref_control()
                n_est += limit
                its += limit + 1
            else:
                mpc.run(arg)
                for _ in range(arg):
                    ref_control()
                n_est += arg
                its += arg
        else:
            which, reps, form = arg
            v = FIXED[which][:nu]
            u = ca.DM(v) if form == "dm" else (v[0] if form == "float" and nu == 1 else list(v))
            (mpc.run_fixed_control if op == "fix" else mpc.run_fixed_control_with_estimator)(u, reps)
            for _ in range(reps):
                ref.go(u=v)
            its += reps
            n_est += reps if op == "fixe" else 0
        tr.step()
        look("after %s %s" % (op, arg))
        if est is not None:
            require(len(seen) == n_est, "estimator-calls", lambda: "%d calls, expected %d" % (len(seen), n_est))
        require(mpc.iteration == its, "iterations", lambda: "%s, expected %d" % (mpc.iteration, its))
    for k in ("x", "u", "meas"):
        t, v = pl.dataset.get_entry(k)
        require(v.shape[1] == len(ref.log[k]), "dataset", lambda: "%s has %s, expected %d" % (k, v.shape, len(ref.log[k])))
        for j, r in enumerate(ref.log[k]):
            require(c22.close(c22.fl(v[:, j]), r[1], tol), "dataset", lambda: "%s at %s: %s, expected %s" % (k, r[0], v[:, j], r[1]))


def build(tier):
    from yaocptool import config
    import yaocptool.methods  # noqa: F401
    import yaocptool.mpc  # noqa: F401

    o = config.SOLVER_OPTIONS["nlpsol_options"]
    o["ipopt.linear_solver"] = "mumps"
    th = tier == "thorough"
    alpha = [("run", 1), ("run", 2), ("fix", ("a", 1, "dm")), ("fixe", ("b", 2, "list"))]
    hist, conf = [], []
    depth = 3
    for model, kw in (("one", {}), ("two", {}), ("par", dict(est=True, mean=((1, 0),), cov=((2, 1),)))):
        for ops in c22.histories(alpha, depth if (th or model != "two") else 2):
            hist.append(dict(model=model, n=2, dc=1, scheme="collocation", ops=ops, **kw))
    for ops in c22.histories([("run", 1), ("run", 2), ("fix", ("a", 1, "dm")), ("fix", ("b", 1, "float"))], 3):
        hist.append(dict(model="one", n=1, dc=1, scheme="collocation", ops=ops, du=0.15))
    for h in list(hist[:: 1 if th else 3]):
        hist.append(dict(h, hooks=True))
    seqs = [(("run", 3),), (("fix", ("a", 1, "float")), ("run", 2), ("fixe", ("b", 1, "dm")), ("run", 1)), (("run", 0),)]
    for model in LQ:
        for scheme in ("collocation", "multiple-shooting"):
            long = ((("run", 12),), (("fix", ("a", 12, "dm")), ("run", 2), ("fixe", ("b", 11, "list")), ("run", 1)))
            conf += [dict(model=model, scheme=scheme, n=2, dc=1, t0=0.0, est=est, ops=ops) for est in (False, True) for ops in long]
        nx, ny, nu, np_, nth = LQ[model]["n"]
        for scheme in ("collocation", "multiple-shooting"):
            for n, dc in ((1, 1), (2, 1), (3, 1), (2, 2), (2, 3)) if th else ((1, 1), (2, 1), (2, 2)):
                for t0, sampling in itertools.product((0.0, 1.5), (1, 2)):
                    for est in (False, True):
                        for c in ("default", "mix") if est else ("default",):
                            for mean, cov in ((((0, 1),), ()), ((), ()), (((1, 0),), ((3, 1),)), (((0, 0), (1, 1)), ())) if np_ else (((), ()),):
                                for ops in seqs if th or not est else seqs[1:2]:
                                    for rearr, pm in ((False, False), (True, False), (True, True)) if nx > 1 else ((False, False), (True, False)):
                                        if not th and pm and mean:
                                            continue
                                        if not th and rearr and (sampling == 2 or t0 == 0):
                                            continue
                                        conf.append(dict(model=model, scheme=scheme, n=n, dc=dc, t0=t0, sampling=sampling, est=est, c=c, mean=mean, cov=cov, ops=ops,
                                                         rearr=rearr, perm=pm, verb=1 if t0 else 0))
    return [core.Suite("histories", hist, run_mpc), core.Suite("configurations", conf, run_mpc)]


if __name__ == "__main__":
    core.main("C23", build,
              {"quick": "4 linear-quadratic closed loops: all histories of MPC runs and fixed-control runs up to length 3, and runs of 12 iterations; schemes x elements x control degrees x initial times x sampling x estimators x parameter mappings x state rearrangements, solved with IPOPT",
               "thorough": "more elements and control degrees, full product of the configurations"},
              ["the sampling time of the plant is the length of an element of the optimal control problem",
               "references: exact minimiser of the finite-dimensional quadratic cost for each measurement, plant by Runge-Kutta; tolerance 2e-4"])
