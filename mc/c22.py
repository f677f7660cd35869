"""C22: the simulated plant follows its model under exactly the controls it was given."""
import itertools

from . import core
from .core import require

MODELS = {
    "ode": dict(n=(1, 0, 1, 0, 0), f=lambda t, x, y, u, p, th: [-0.5 * x[0] + u[0]], y=lambda t, x, u, p, th: []),
    "ode2": dict(n=(2, 0, 2, 0, 0), f=lambda t, x, y, u, p, th: [x[1] - 0.1 * x[0] * x[0], -x[0] + u[0] - 0.4 * u[1] + 0.2 * t], y=lambda t, x, u, p, th: []),
    "auto": dict(n=(1, 0, 0, 0, 0), f=lambda t, x, y, u, p, th: [-0.3 * x[0] + 0.5 * t], y=lambda t, x, u, p, th: []),
    "dae": dict(n=(1, 1, 1, 0, 0), f=lambda t, x, y, u, p, th: [-x[0] + 0.3 * y[0]], y=lambda t, x, u, p, th: [0.5 * x[0] + 2 * u[0] + 0.1 * t]),
    "dae2": dict(n=(2, 2, 1, 1, 1), f=lambda t, x, y, u, p, th: [-x[0] + 0.3 * y[1] + p[0], x[0] - 0.5 * y[0] - th[0]],
                 y=lambda t, x, u, p, th: [x[1] + u[0] * p[0], 0.4 * x[0] - 0.7 * u[0] + th[0]]),
    # parametrised controls: u0 = v0 + v1 t (two values for one control); u = (-v0 x0, x1 + v1, ...) with feedback
    "affine": dict(n=(1, 0, 1, 0, 0), f=lambda t, x, y, u, p, th: [-0.5 * x[0] + u[0]], y=lambda t, x, u, p, th: [], par=(2, lambda t, x, v: [v[0] + v[1] * t])),
    "feed": dict(n=(2, 1, 2, 0, 0), f=lambda t, x, y, u, p, th: [x[1] + 0.2 * u[0], -x[0] + y[0]], y=lambda t, x, u, p, th: [0.5 * x[0] + u[1]], par=(1, lambda t, x, v: [-v[0] * x[0], 0.3 * v[0] - x[1]])),
}
X0 = [1.1, -0.4]
U0 = [0.25, -0.15]
P, TH = [0.6], [0.3]
YG = [0.7, -0.2]


def build_model(md):
    import casadi as ca
    from yaocptool.modelling import SystemModel

    nx, ny, nu, np_, nth = md["n"]
    m = SystemModel(name="plant")
    v = []
    for nm, k, mk in (("x", nx, m.create_state), ("y", ny, m.create_algebraic_variable), ("u", nu, m.create_control),
                      ("p", np_, m.create_parameter), ("th", nth, m.create_theta)):
        v.append([mk("%s%d" % (nm, i)) for i in range(k)])
    x, y, u, p, th = v
    m.include_equations(ode=ca.vertcat(*md["f"](m.t, x, y, u, p, th)), x=m.x)
    if ny:
        m.include_equations(alg=ca.vertcat(*[a - b for a, b in zip(y, md["y"](m.t, x, u, p, th))]))
    if "par" in md:
        k, fn = md["par"]
        v = [ca.SX.sym("v%d" % i) for i in range(k)]
        m.parametrize_control(m.u, ca.vertcat(*fn(m.t, x, v)), ca.vertcat(*v))
    return m


def advance(md, t0, t1, x, v, p, th, steps=24):
    U = lambda t, z: md["par"][1](t, z, v) if "par" in md else v
    F = lambda t, z: md["f"](t, z, md["y"](t, z, U(t, z), p, th), U(t, z), p, th)
    h = (t1 - t0) / steps
    z, t = list(x), t0
    for _ in range(steps):
        k1 = F(t, z)
        k2 = F(t + h / 2, [a + h / 2 * b for a, b in zip(z, k1)])
        k3 = F(t + h / 2, [a + h / 2 * b for a, b in zip(z, k2)])
        k4 = F(t + h, [a + h * b for a, b in zip(z, k3)])
        z = [a + h / 6 * (b + 2 * c + 2 * d + e) for a, b, c, d, e in zip(z, k1, k2, k3, k4)]
        t += h
    return z


def cmat(kind, nx, ny):
    n = nx + ny
    if kind == "first":
        return [[1.0 if j == 0 else 0.0 for j in range(n)]]
    if kind == "last":
        return [[1.0 if j == n - 1 else 0.0 for j in range(n)]]
    if kind == "mix":
        return [[0.5 + j for j in range(n)], [1.0 - 2 * j for j in range(n)], [1.0] * n]
    return [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]


class Ref:
    """The plant as a state machine."""

    def __init__(self, md, cfg, yg, noise):
        self.md, self.cfg, self.noise = md, cfg, noise
        nx, ny, nu, self.np, self.nth = md["n"]
        self.t, self.x, self.u = cfg["t0"], X0[:nx], (U0[:nu] if cfg["u0"] else [0.0] * nu)
        self.p, self.th = P[: self.np], TH[: self.nth]
        self.C = cmat(cfg["c"], nx, ny)
        s = cfg["sampling"]
        self.points = [(i + 1.0) / s for i in range(s)] if isinstance(s, int) else list(s)
        self.log = {"x": [(self.t, self.x)], "y": [(self.t, yg)], "u": [(self.t, self.u)], "meas": [], "meas_wo_noise": []}
        self.ufun = None
        self.measure(yg, noisy=False)

    def measure(self, y, noisy):
        v = self.x + list(y)
        m = [sum(a * b for a, b in zip(r, v)) for r in self.C]
        self.log["meas_wo_noise"].append((self.t, m))
        if noisy:
            m = [a + b for a, b in zip(m, self.noise())]
        self.log["meas"].append((self.t, m))
        self.meas = m

    def go(self, u=None, fun=None):
        self.ufun = fun
        if u is not None:
            self.u = list(u)
        t_s = self.cfg["ts"]
        start = self.t
        for q in self.points:
            t1 = start + q * t_s
            if self.ufun is not None:
                self.u = self.ufun(self.t)
            self.x = advance(self.md, self.t, t1, self.x, self.u, self.p, self.th)
            u = self.md["par"][1](t1, self.x, self.u) if "par" in self.md else self.u
            y = self.md["y"](t1, self.x, u, self.p, self.th)
            if self.cfg["noise"]:
                self.x = [a + b for a, b in zip(self.x, self.noise())]
            self.t = t1
            self.log["x"].append((t1, self.x))
            self.log["y"].append((t1, y))
            self.log["u"].append((t1, u))
        self.measure(y, noisy=self.cfg["noise"])


VALS = {"a": [0.8, -0.5], "b": [-0.6, 0.9]}
FUNS = {"f": lambda t: [0.3 + 0.5 * t, 0.2 - t], "g": lambda t: [1.0 - 0.4 * t * t, 0.1 * t]}


def close(a, b, tol=2e-5):
    return len(a) == len(b) and all(abs(p - q) <= tol * (1 + abs(q)) for p, q in zip(a, b))


def fl(v):
    import casadi as ca

    return [float(q) for q in ca.DM(v).full().T.flatten()]


class Script:
    """Stand-in for the random generator: a fixed sequence of draws, sized by the requested covariance."""

    def __init__(self):
        self.calls, self.k = [], 0

    def draw(self, n):
        out = [0.01 * (1 + self.k) * (1 if i % 2 else -1) + 0.003 * i for i in range(n)]
        self.k += 1
        return out


def run_plant(cfg, tr):
    import casadi as ca
    import numpy
    from yaocptool.mpc import PlantSimulation

    md = MODELS[cfg["model"]]
    nx, ny, nu, np_, nth = md["n"]
    nv = md["par"][0] if "par" in md else nu
    m = build_model(md)
    C = cmat(cfg["c"], nx, ny)
    yg = YG[:ny]
    form = cfg["guess"]
    guess = {"dm": ca.DM(yg) if ny else ca.DM.zeros(0, 1), "none": None, "float": yg[0] if ny else None}[form]
    if form == "none":
        yg = [0.0] * ny
    pl = PlantSimulation(
        model=m, x_0=ca.DM(X0[:nx]), u_0=(ca.DM(U0[:nu]) if nu else ca.DM.zeros(0, 1)) if cfg["u0"] else None, y_guess=guess, t_0=cfg["t0"], t_s=cfg["ts"],
        c_matrix=None if cfg["c"] == "default" else ca.DM(C), verbosity=0, super_samling=cfg["sampling"])
    if np_:
        pl.p = ca.DM(P[:np_])
    if nth:
        pl.theta = ca.DM(TH[:nth])
    sizes = []
    # the integrator's error accumulates over the instants integrated
    k = cfg["sampling"] if isinstance(cfg["sampling"], int) else len(cfg["sampling"])
    tol = 2e-5 * max(1, len(cfg["ops"]) * k / 3)
    ref = Ref(md, cfg, yg, lambda: None)
    s1, s2 = Script(), Script()
    if cfg["noise"]:
        pl.has_noise = True
        pl.r_v, pl.r_n = 0.01 * ca.DM.eye(nx), 0.02 * ca.DM.eye(len(C))
        npoints = len(ref.points)
        state = {"k": 0}

        def ref_noise():
            k = state["k"]
            state["k"] += 1
            return s2.draw(len(C) if k % (npoints + 1) == npoints else nx)

        ref.noise = ref_noise
    old = numpy.random.multivariate_normal

    def fake(mean, cov, *a, **k):
        cov = numpy.array(ca.DM(cov))
        sizes.append((len(mean), float(cov[0][0])))
        return numpy.array(s1.draw(len(mean)))

    def look(where):
        t, meas, u = pl.get_measurement()
        require(abs(float(t) - ref.t) < 1e-9, "time", lambda: "%s: time %s, expected %s" % (where, t, ref.t))
        require(abs(float(pl.t) - ref.t) < 1e-9, "time", lambda: "%s: time %s, expected %s" % (where, pl.t, ref.t))
        require(close(fl(meas), ref.meas, tol), "measurement", lambda: "%s: measured %s, expected %s" % (where, meas, ref.meas))
        require(close(fl(u), ref.u, tol), "control", lambda: "%s: control %s, expected %s" % (where, u, ref.u))
        require(close(fl(pl.x), ref.x, tol), "state", lambda: "%s: state %s, expected %s" % (where, pl.x, ref.x))
        tr.state((cfg["model"], round(ref.t, 6), [round(v, 6) for v in ref.x], [round(v, 6) for v in ref.u]))

    numpy.random.multivariate_normal = fake
    try:
        look("start")
        for op in cfg["ops"]:
            before = (float(pl.t), fl(pl.x))
            if op in VALS:
                v = VALS[op][:nv]
                f = cfg["form"]
                arg = ca.DM(v) if nv and f == "dm" else (ca.DM.zeros(0, 1) if not nv else (v[0] if f == "float" and nv == 1 else list(v)))
                pl.set_control(arg)
                ref.go(u=v)
            elif op in FUNS:
                t = ca.SX.sym("t")
                fn = FUNS[op]
                pl.set_control_function(ca.Function("uf", [t], [ca.vertcat(*fn(t)[:nv])]))
                ref.go(fun=lambda t, fn=fn: fn(t)[:nv])
            elif op in ("bad", "small"):
                try:
                    k = nv + 1 if op == "bad" else nv - 1
                    pl.set_control(ca.DM([0.1] * k) if k else ca.DM.zeros(0, 1))
                    raised = False
                except ValueError:
                    raised = True
                require(raised, "size-accepted", "a control of the wrong size was accepted")
                require((float(pl.t), fl(pl.x)) == before, "refused-moved", "a refused control moved the plant")
            tr.step()
            look("after %s" % op)
    finally:
        numpy.random.multivariate_normal = old
    if cfg["noise"]:
        exp = ([(nx, 0.01)] * len(ref.points) + [(len(C), 0.02)]) * len([o for o in cfg["ops"] if o not in ("bad", "small")])
        require(len(sizes) == len(exp) and all(a[0] == b[0] and abs(a[1] - b[1]) < 1e-12 for a, b in zip(sizes, exp)), "noise-draws", lambda: "%s, expected %s" % (sizes, exp))
    names = {"x": ["x%d" % i for i in range(nx)], "y": ["y%d" % i for i in range(ny)], "u": ["u%d" % i for i in range(nu)]}
    for k, rows in ref.log.items():
        t, v = pl.dataset.get_entry(k)
        require(close(fl(t), [r[0] for r in rows], 1e-9), "dataset-time", lambda: "%s at %s, expected %s" % (k, t, [r[0] for r in rows]))
        size = len(rows[0][1])
        if size:
            require(v.shape == (size, len(rows)), "dataset-shape", lambda: "%s: %s" % (k, v.shape))
            for j, r in enumerate(rows):
                require(close(fl(v[:, j]), r[1], tol), "dataset-values", lambda: "%s at %s: %s, expected %s" % (k, r[0], v[:, j], r[1]))
        require(pl.dataset.get_entry_size(k) == size, "dataset-size", lambda: "%s: %s, expected %s" % (k, pl.dataset.get_entry_size(k), size))
        got = list(pl.dataset.get_entry_names(k))
        if k in names:
            require(len(got) == size and all(a.endswith(b) for a, b in zip(got, names[k])), "dataset-names", lambda: "%s: %s" % (k, got))
        else:
            require(len(got) == size and len(set(got)) == size, "dataset-names", lambda: "%s: %s" % (k, got))
    if nx + ny + nu:
        df = pl.dataset.as_dataframe()
        require(close(sorted(df.index), sorted({r[0] for r in ref.log["x"]}), 1e-9), "dataframe", lambda: "%s" % list(df.index))


def histories(alphabet, depth):
    for n in range(1, depth + 1):
        yield from itertools.product(alphabet, repeat=n)


def build(tier):
    import yaocptool.mpc  # noqa: F401

    th = tier == "thorough"
    hist, conf = [], []
    base = dict(t0=0.0, ts=0.4, c="default", sampling=1, guess="dm", u0=True, noise=False, form="dm")
    for model in MODELS:
        al = ("a", "bad") if model == "auto" else ("a", "b", "f", "g", "bad", "small")
        for sampling in (1, 2):
            if sampling == 2 and not th and model not in ("ode2", "dae2"):
                continue
            depth = 3 if (th or model in ("ode2", "dae")) and sampling == 1 else 2
            for ops in histories(al, depth):
                hist.append(dict(base, model=model, sampling=sampling, ops=ops, t0=0.7 if model == "dae2" else 0.0))
    for model in MODELS:  # long runs
        for ops in (("a",) * 12, ("a", "f", "b", "g", "bad", "a") * 3) if model != "auto" else (("a",) * 12,):
            for s in (1, 2, 12):
                hist.append(dict(base, model=model, sampling=s, ops=ops))
    for model in MODELS:
        nu = MODELS[model]["n"][2]
        for t0, ts, c, s, g, u0, noise in itertools.product((0.0, 1.5), (0.4,) if not th else (0.4, 1.0), ("default", "first", "last", "mix"), (1, 2, 3, (0.25, 1.0), (0.1, 0.6, 1.0)),
                                                            ("dm", "none", "float"), (True, False), (False, True)):
            if g == "float" and MODELS[model]["n"][1] != 1:
                continue
            if not th and (t0 > 0) != (g == "dm"):
                continue
            if not th and u0 == noise:
                continue
            for ops, form in ((("a", "f", "b"), "dm"), (("f", "a"), "list"), (("g", "b"), "float")) if nu else ((("a", "a"), "dm"),):
                if not th and (form == "float") != (noise and nu == 1):
                    continue
                conf.append(dict(model=model, t0=t0, ts=ts, c=c, sampling=s, guess=g, u0=u0, noise=noise, ops=ops, form=form))
    return [core.Suite("histories", hist, run_plant), core.Suite("configurations", conf, run_plant)]


if __name__ == "__main__":
    core.main("C22", build,
              {"quick": "5 models (autonomous, one and two controls, DAE, DAE with parameter and theta): all histories of constant controls, control functions and refused controls up to length 2-3, and runs of 12 and 18 controls with up to 12 sampling points; initial times x measurement matrices x sampling points x guesses x control forms x scripted noise",
               "thorough": "histories up to length 3 on every model, full product of the configurations"},
              ["the random generator is replaced by a fixed sequence of draws; the reference integrates with fixed-step Runge-Kutta (tolerance 2e-5, growing with the number of integrated intervals beyond 3)"])
