"""C09: simulations, equilibria and linearisations follow the model's own equations."""
import itertools

from . import core
from .core import Disagreement, require

# Semi-explicit models: x' = f(t,x,y,u,p,th), y = g(t,x,u,p,th).  Written once, used both as CasADi
# expressions and on floats.
MODELS = {
    "scalar": dict(n=(1, 0, 1, 0, 0), f=lambda t, x, y, u, p, th: [-x[0] + u[0]], g=None),
    "autonomous": dict(n=(2, 0, 0, 0, 0), f=lambda t, x, y, u, p, th: [x[1], -x[0] - 0.5 * x[1] + 0.3 * t], g=None),
    "full": dict(n=(2, 0, 2, 1, 2), f=lambda t, x, y, u, p, th: [-x[0] + u[1] + p[0] * x[1] + th[0], -0.5 * x[1] + 2 * u[0] - th[1] + t * x[0]], g=None),
    "dae": dict(n=(1, 1, 1, 1, 0), f=lambda t, x, y, u, p, th: [-x[0] + y[0]], g=lambda t, x, u, p, th: [0.5 * x[0] + u[0] * p[0] + t]),
    "dae2": dict(n=(2, 2, 1, 0, 1), f=lambda t, x, y, u, p, th: [y[1] - x[0], -y[0] + u[0]], g=lambda t, x, u, p, th: [x[1] + th[0], 2 * x[0] - u[0]]),
    "order": dict(n=(1, 0, 3, 3, 3), f=lambda t, x, y, u, p, th: [-x[0] + u[0] + 2 * u[1] + 3 * u[2] + 0.1 * p[0] + 0.2 * p[1] + 0.4 * p[2] + 0.7 * th[0] + 1.1 * th[1] + 1.3 * th[2]], g=None),
    # u0 = k0*x + k1 (feedback), u1 stays free
    "param": dict(n=(1, 0, 2, 1, 0), f=lambda t, x, y, u, p, th: [-x[0] + u[0] * p[0] + 2 * u[1]], g=None, param=True),
    # u = a + b*t
    "ramp": dict(n=(2, 1, 1, 0, 1), f=lambda t, x, y, u, p, th: [x[1] + y[0], -x[0] + u[0] + th[0]], g=lambda t, x, u, p, th: [u[0] + x[1]], ramp=True),
    # u = k + theta*x + p*y - t/2
    "policy": dict(n=(1, 1, 1, 1, 1), f=lambda t, x, y, u, p, th: [-x[0] + u[0] + 0.2 * y[0]], g=lambda t, x, u, p, th: [0.5 * x[0] + 0.3 * t], policy=True),
}
X0 = [0.7, -0.4]
PV = [1.3, -0.6, 0.9]
GRIDS = {"one": [0.5], "two": [0.3, 1.0], "three": [0.2, 0.5, 1.1], "twelve": [0.1 * (k + 1) + 0.02 * (k % 3) for k in range(12)]}


def n_par(name):
    m = MODELS[name]
    n_u = m["n"][2]
    if m.get("param"):
        return 3  # (u1, k0, k1)
    if m.get("ramp"):
        return 2
    return n_u


def u_val(name, t, x, up, p, th):
    m = MODELS[name]
    if m.get("policy"):
        return [up[0] + th[0] * x[0] + p[0] * m["g"](t, x, None, p, th)[0] - 0.5 * t]
    if m.get("param"):
        return [up[1] * x[0] + up[2], up[0]]
    if m.get("ramp"):
        return [up[0] + up[1] * t]
    return up


def uv(name, k):
    return [0.4 + 0.3 * i - 0.25 * k + 0.1 * k * i for i in range(n_par(name))]


def thv(name, k):
    return [0.2 - 0.5 * i + 0.35 * k for i in range(MODELS[name]["n"][4])]


def build_model(name):
    import casadi as ca
    from yaocptool.modelling import SystemModel

    m = MODELS[name]
    nx, ny, nu, np_, nth = m["n"]
    s = SystemModel(name)
    L = lambda v, n: [v[i] for i in range(n)]  # noqa: E731
    x = L(s.create_state("x", nx), nx) if nx else []
    y = L(s.create_algebraic_variable("y", ny), ny) if ny else []
    u = L(s.create_control("u", nu), nu) if nu else []
    p = L(s.create_parameter("p", np_), np_) if np_ else []
    th = L(s.create_theta("th", nth), nth) if nth else []
    s.include_equations(ode=[ca.SX(e) for e in m["f"](s.t, x, y, u, p, th)], x=x)
    if ny:
        s.include_equations(alg=[yi - g for yi, g in zip(y, m["g"](s.t, x, u, p, th))])
    if m.get("param"):
        k = ca.SX.sym("k", 2)
        s.parametrize_control(u[0], k[0] * x[0] + k[1], k)
    if m.get("ramp"):
        k = ca.SX.sym("k", 2)
        s.parametrize_control(u[0], k[0] + k[1] * s.t, k)
    if m.get("policy"):
        k = ca.SX.sym("k")
        s.parametrize_control(u[0], k + th[0] * x[0] + p[0] * y[0] - 0.5 * s.t, k)
    return s


def ref_sim(name, x, t0, t1, up, p, th, n=120):
    m = MODELS[name]

    def rhs(t, x):
        u = u_val(name, t, x, up, p, th)
        y = m["g"](t, x, u, p, th) if m["g"] else []
        return m["f"](t, x, y, u, p, th)

    h = (t1 - t0) / n
    t = t0
    for _ in range(n):
        k1 = rhs(t, x)
        k2 = rhs(t + h / 2, [a + h / 2 * b for a, b in zip(x, k1)])
        k3 = rhs(t + h / 2, [a + h / 2 * b for a, b in zip(x, k2)])
        k4 = rhs(t + h, [a + h * b for a, b in zip(x, k3)])
        x = [a + h / 6 * (b + 2 * c + 2 * d + e) for a, b, c, d, e in zip(x, k1, k2, k3, k4)]
        t += h
    u = u_val(name, t1, x, up, p, th)
    y = m["g"](t1, x, u, p, th) if m["g"] else []
    return x, y, u


def near(a, b, tol=3e-4):
    return len(a) == len(b) and all(abs(i - j) <= tol * (1 + abs(j)) for i, j in zip(a, b))


def col(M, i):
    return [float(v) for v in M[:, i].full().ravel()] if M.shape[0] else []


def check_result(res, name, t0, tf, upk, p, thk, x0):
    import casadi as ca

    m = MODELS[name]
    nx, ny, nu = m["n"][:3]
    tx, vx = res.get_entry("x")
    ty, vy = res.get_entry("y")
    tu, vu = res.get_entry("u")
    fl = lambda d: [float(v) for v in d.full().ravel()]  # noqa: E731
    require(near(fl(tx), [t0] + tf, 1e-12), "time:x", lambda: "x times %s expected %s" % (tx, [t0] + tf))
    require(near(fl(ty), tf, 1e-12) and near(fl(tu), tf, 1e-12), "time:yu", lambda: "y/u times %s / %s expected %s" % (ty, tu, tf))
    require(vx.shape == (nx, len(tf) + 1) and vy.shape == (ny, len(tf)) and vu.shape == (nu, len(tf)), "shape", "%s %s %s" % (vx.shape, vy.shape, vu.shape))
    require(near(col(vx, 0), x0, 1e-12), "x0", "%s" % vx)
    x, ta = list(x0), t0
    for k, tb in enumerate(tf):
        x, y, u = ref_sim(name, x, ta, tb, upk[k], p, thk[k])
        require(near(col(vx, k + 1), x), "value:x", lambda: "x(%s)=%s expected %s" % (tb, col(vx, k + 1), x))
        if ny:
            require(near(col(vy, k), y), "value:y", lambda: "y(%s)=%s expected %s" % (tb, col(vy, k), y))
        if nu:
            require(near(col(vu, k), u), "value:u", lambda: "u(%s)=%s expected %s" % (tb, col(vu, k), u))
        ta = tb
    require(res.n_x == nx and res.n_y == ny and res.n_u == nu, "sizes", "")
    require(float(res.t_0) == t0 and float(res.t_f) == tf[-1], "t_0/t_f", "%s %s" % (res.t_0, res.t_f))
    require(res.finite_elements == len(tf), "finite_elements", "%s" % res.finite_elements)
    fc = res.final_condition()
    require(near(col(fc["x"], 0), x) and (not ny or near(col(fc["y"], 0), y)) and (not nu or near(col(fc["u"], 0), u)), "final_condition", "%s" % fc)
    require(len(res.x) == len(tf) + 1 and near(col(res.x[-1], 0), x), "list:x", "")
    require(len(res.u) == len(tf) and len(res.y) == len(tf), "list:yu", "")
    require(near(fl(ca.DM(res.t)), [t0] + tf, 1e-12), "list:t", "")


def run_sim(sc, tr):
    import casadi as ca

    name, t0, grid, uform, form, integ = sc
    m = MODELS[name]
    nx, ny, nu, np_, nth = m["n"]
    s = build_model(name)
    require(s.x_names == ["x_%d" % i for i in range(nx)] if nx > 1 else True, "names", "")
    tf = [t0 + g for g in GRIDS[grid]]
    K = len(tf)
    p, x0 = PV[:np_], X0[:nx]
    thk = [thv(name, k) for k in range(K)]
    if uform == "const":
        upk = [uv(name, 0)] * K
        ua = uv(name, 0) if form == "list" else ca.DM(uv(name, 0))
    else:
        upk = [uv(name, k) for k in range(K)]
        ua = {k: ca.DM(upk[k]) for k in range(K)}
    kw = {}
    if n_par(name):
        kw["u"] = ua
    if np_:
        kw["p"] = list(p) if form == "list" else ca.DM(p)
    if nth:
        kw["theta"] = {k: ca.DM(thk[k]) for k in range(K)}
    if integ is not None:
        kw["integrator_type"] = integ
    if ny and form == "list":
        kw["y_0"] = [0.1] * ny
    arg = tf if K > 1 else (tf[0] if form == "list" else [tf[0]])
    res = s.simulate(x_0=list(x0) if form == "list" else ca.DM(x0), t_f=arg, t_0=t0, **kw)
    tr.step(K)
    require(res.x_names == s.x_names and res.u_names == s.u_names and res.y_names == s.y_names, "names", "")
    check_result(res, name, t0, tf, upk, p, thk, x0)
    tr.state(sc)
    # chained simulations, extended, equal the single one
    if K > 1 and uform == "dict" and integ is None:
        acc, xk, ta = None, ca.DM(x0), t0
        for k, tb in enumerate(tf):
            kw2 = dict(kw, u=ca.DM(upk[k])) if n_par(name) else dict(kw)
            if nth:
                kw2["theta"] = {0: ca.DM(thk[k])}
            r = s.simulate(x_0=xk, t_f=tb, t_0=ta, **kw2)
            tr.step()
            xk, ta = r.final_condition()["x"], tb
            if acc is None:
                acc = r
            else:
                acc.extend(r)
        require(near(col(acc.final_condition()["x"], 0), col(res.final_condition()["x"], 0), 1e-3), "chained", "")
        require(float(acc.t_0) == t0 and float(acc.t_f) == tf[-1] and acc.finite_elements == K, "chained-span", "%s %s %s" % (acc.t_0, acc.t_f, acc.finite_elements))


def run_ocp(sc, tr):
    import casadi as ca
    from yaocptool.modelling import OptimalControlProblem

    name, t0, tf_given, t0_given, fe, guess = sc
    nx, ny, nu, np_, nth = MODELS[name]["n"]
    s = build_model(name)
    ocp = OptimalControlProblem(s, x_0=ca.DM(X0[:nx]), t_0=t0, t_f=t0 + 0.8)
    a = t0 + 0.1 if t0_given else t0
    b = a + 0.6 if tf_given else t0 + 0.8
    K = fe or 1
    kw = {}
    if t0_given:
        kw["t_0"] = a
    if tf_given:
        kw["t_f"] = b
    if fe:
        kw["finite_elements"] = fe
    if np_:
        kw["p"] = PV[:np_]
    if nth:
        kw["theta"] = {k: ca.DM(thv(name, k)) for k in range(K)}
    if n_par(name):
        if guess:
            ocp.u_guess = ca.DM(uv(name, 0))
            ocp.last_u = ca.DM(uv(name, 1)) * 2 + 1
        else:
            kw["u"] = ca.DM(uv(name, 0))
    res = ocp.simulate(**kw)
    tf = [a + (b - a) / K * (k + 1) for k in range(K)]
    tr.step(K)
    rt = [float(v) for v in res.get_entry("x")[0].full().ravel()]
    require(near(rt, [a] + tf, 1e-9), "ocp-time", lambda: "%s: times %s expected %s" % (sc, rt, [a] + tf))
    x, ta = X0[:nx], a
    for k, tb in enumerate(tf):
        x, y, u = ref_sim(name, x, ta, tb, uv(name, 0), PV[:np_], thv(name, k))
        require(near(col(res.get_entry("x")[1], k + 1), x), "ocp-value", lambda: "%s: x(%s)=%s expected %s" % (sc, tb, res.get_entry("x")[1], x))
        ta = tb
    tr.state(sc)


def run_bad(sc, tr):
    """Requests that make no sense are refused."""
    import casadi as ca

    name, what = sc
    nx, ny, nu, np_, nth = MODELS[name]["n"]
    s = build_model(name)
    kw = dict(x_0=ca.DM(X0[:nx]), t_f=[0.5, 1.0], p=PV[:np_], u={k: ca.DM(uv(name, k)) for k in range(2)}, theta={k: ca.DM(thv(name, k)) for k in range(2)})
    if what == "zero":
        kw.update(t_f=[0.5, 0.5])
    elif what == "zero-first":
        kw.update(t_f=[0.0, 0.5])
    elif what == "u-count":
        kw.update(u={k: ca.DM(uv(name, k)) for k in range(3)})
    elif what == "u-missing":
        kw.update(u={0: ca.DM(uv(name, 0))})
    elif what == "theta-missing":
        kw.update(theta={0: ca.DM(thv(name, 0))})
    elif what == "tau":
        s.include_equations(ode=[s.tau] * nx, x=s.x)
    elif what == "type":
        kw.update(integrator_type="nonsense")
    try:
        r = s.simulate(**kw)
    except Exception:
        tr.step()
        tr.state(sc)
        return
    raise Disagreement("accepted:" + what, "simulate accepted %s: %s" % (what, r))


def run_equilibrium(sc, tr):
    import casadi as ca
    from yaocptool import config

    config.SOLVER_OPTIONS["nlpsol_options"]["ipopt.linear_solver"] = "mumps"
    a, b, ub, t0, ny = sc
    from yaocptool.modelling import SystemModel

    s = SystemModel("eq")
    x = s.create_state("x", 2)
    u = s.create_control("u")
    if ny:
        y = s.create_algebraic_variable("y")
        s.include_equations(ode=[-x[0] + a * y, -x[1] + x[0] * x[0] + b * u + s.t], x=x, alg=[y - u - 1])
        ex = [a * (ub + 1), (a * (ub + 1)) ** 2 + b * ub + t0]
        ey = [ub + 1]
    else:
        s.include_equations(ode=[-x[0] + a * u, -x[1] + x[0] * x[0] + b * u + s.t], x=x)
        ex = [a * ub, (a * ub) ** 2 + b * ub + t0]
        ey = []
    xe, ye, ue = s.find_equilibrium([u - ub], t_0=t0)
    fl = lambda d: [float(v) for v in ca.DM(d).full().ravel()]  # noqa: E731
    require(near(fl(xe), ex, 1e-5) and near(fl(ye), ey, 1e-5) and near(fl(ue), [ub], 1e-5), "equilibrium", lambda: "%s: %s %s %s" % (sc, xe, ye, ue))
    tr.step()
    if ny:
        for xv, uvv in (([1.0, 2.0], 0.3), ([0.0, -1.0], -2.0)):
            yv = s.find_algebraic_variable(ca.DM(xv), ca.DM([uvv]), t=t0)
            require(near(fl(yv), [uvv + 1], 1e-6), "algebraic-value", "%s" % yv)
            yv = s.find_algebraic_variable(ca.DM(xv), ca.DM([uvv]), guess=[5.0], t=t0)
            require(near(fl(yv), [uvv + 1], 1e-6), "algebraic-value", "%s" % yv)
            tr.step(2)
    else:
        lin = s2 = SystemModel("lin")
        z = s2.create_state("z", 2)
        w = s2.create_control("w", 2)
        s2.include_equations(ode=[a * z[0] * z[1] + w[0], b * z[0] - w[1] * w[1] * z[1]], x=z)
        for xb in ([1.0, -0.5], [0.2, 2.0]):
            for wb in ([0.0, 1.0], [2.0, -1.5]):
                lin = s2.linearize(xb, wb)
                A = [[a * xb[1], a * xb[0]], [b, -wb[1] ** 2]]
                B = [[1.0, 0.0], [0.0, -2 * wb[1] * xb[1]]]
                require(lin.n_x == 2 and lin.n_u == 2, "linear-size", "%s %s" % (lin.n_x, lin.n_u))
                f = ca.Function("f", [lin.x, lin.u], [lin.ode])
                for j in range(2):
                    e = [float(i == j) for i in range(2)]
                    require(near(fl(f(e, [0, 0])), [A[0][j], A[1][j]], 1e-9), "linear-A", "%s" % lin.ode)
                    require(near(fl(f([0, 0], e)), [B[0][j], B[1][j]], 1e-9), "linear-B", "%s" % lin.ode)
                require(near(fl(f([0, 0], [0, 0])), [0, 0], 1e-12), "linear-offset", "%s" % lin.ode)
                require(s2.n_x == 2 and s2.n_u == 2, "linearize-mutates", "")
                tr.step()
    tr.state(sc)


def run_equilibrium2(sc, tr):
    """Several algebraic variables and controls: x' = a y1 - x + 3 tau (tau is 0 at the given time), y0 = u0 + 2 x, y1 = u1 - t, found from any one condition per control."""
    import casadi as ca
    from yaocptool import config
    from yaocptool.modelling import SystemModel

    config.SOLVER_OPTIONS["nlpsol_options"]["ipopt.linear_solver"] = "mumps"
    a, t0, conds, guess = sc
    s = SystemModel("eq2")
    x = s.create_state("x")
    y = s.create_algebraic_variable("y", 2)
    u = s.create_control("u", 2)
    s.include_equations(ode=[a * y[1] - x + 3 * s.tau], x=x, alg=[y[0] - u[0] - 2 * x, y[1] - u[1] + s.t])
    u0, u1 = 0.7, -0.4
    y1 = u1 - t0
    xv = a * y1
    val = {"u0": (u[0], u0), "u1": (u[1], u1), "x": (x, xv), "y0": (y[0], u0 + 2 * xv), "y1": (y[1], y1)}
    eqs = [val[c][0] - val[c][1] for c in conds]
    kw = {"guess": [0.5, 0.1, 0.2, 0.3, -0.1]} if guess else {}
    xe, ye, ue = s.find_equilibrium(ca.vertcat(*eqs) if guess else eqs, t_0=t0, **kw)
    fl = lambda d: [float(v) for v in ca.DM(d).full().ravel()]  # noqa: E731
    require(near(fl(xe), [xv], 1e-5) and near(fl(ye), [u0 + 2 * xv, y1], 1e-5) and near(fl(ue), [u0, u1], 1e-5), "equilibrium2", lambda: "%s: %s %s %s" % (sc, xe, ye, ue))
    yv = s.find_algebraic_variable(ca.DM([xv]), ca.DM([u0, u1]), t=t0)
    require(near(fl(yv), [u0 + 2 * xv, y1], 1e-6), "algebraic-value2", "%s" % yv)
    tr.step(2)
    tr.state(sc)


def run_algebraic(sc, tr):
    """find_algebraic_variable with every combination of sizes of x, u, p, theta: every coefficient reaches its own variable."""
    import casadi as ca
    from yaocptool import config
    from yaocptool.modelling import SystemModel

    config.SOLVER_OPTIONS["nlpsol_options"]["ipopt.linear_solver"] = "mumps"
    nx, ny, nu, np_, nth, t, form = sc
    s = SystemModel("alg")
    x, u = s.create_state("x", nx), s.create_control("u", nu)
    y = s.create_algebraic_variable("y", ny)
    p = s.create_parameter("p", np_) if np_ else []
    th = s.create_theta("th", nth) if nth else []
    vals = {"x": [0.3 + 0.5 * i for i in range(nx)], "u": [-0.7 + 0.9 * i for i in range(nu)], "p": [1.1 + 0.4 * i for i in range(np_)], "th": [-2.3 + 0.6 * i for i in range(nth)]}
    rhs, exp = [0.5 * s.t * (k + 1) for k in range(ny)], [0.5 * t * (k + 1) for k in range(ny)]
    c = 0
    for nm, var in (("x", x), ("u", u), ("p", p), ("th", th)):
        for i, v in enumerate(vals[nm]):
            c += 1
            for k in range(ny):
                rhs[k] = rhs[k] + 0.1 * (c + 3 * k) * var[i]
                exp[k] += 0.1 * (c + 3 * k) * v
    # y_k + 0.2 y_(k+1) = rhs_k, solved backwards
    s.include_equations(alg=[y[k] + (0.2 * y[k + 1] if k + 1 < ny else 0) - rhs[k] for k in range(ny)])
    s.include_equations(ode=[-x[i] for i in range(nx)], x=x)
    for k in range(ny - 2, -1, -1):
        exp[k] -= 0.2 * exp[k + 1]
    kw = {}
    if np_:
        kw["p"] = vals["p"] if form == "list" else ca.DM(vals["p"])
    if nth:
        kw["theta_value"] = vals["th"] if form == "list" else ca.DM(vals["th"])
    if form == "guess":
        kw["guess"] = [0.25 * (k + 1) for k in range(ny)]
    if t:
        kw["t"] = t
    got = s.find_algebraic_variable(ca.DM(vals["x"]), ca.DM(vals["u"]), **kw)
    got = [float(v) for v in got.full().ravel()]
    require(near(got, exp, 1e-6), "algebraic-all", lambda: "%s: %s expected %s" % (sc, got, exp))
    tr.step()
    tr.state(sc)


def run_singular(sc, tr):
    """Equations that are singular at zero: found from the documented default guess of ones."""
    import casadi as ca
    from yaocptool import config
    from yaocptool.modelling import SystemModel

    config.SOLVER_OPTIONS["nlpsol_options"]["ipopt.linear_solver"] = "mumps"
    c, k, t0 = sc
    s = SystemModel("sing")
    x, y, u = s.create_state("x"), s.create_algebraic_variable("y", k), s.create_control("u")
    s.include_equations(ode=[1 / x - 1 - 0.5 * u - 0.1 * s.t], x=x, alg=[1 / y[i] - (c + 0.3 * i) * x for i in range(k)])
    fl = lambda d: [float(v) for v in ca.DM(d).full().ravel()]  # noqa: E731
    xe, ye, ue = s.find_equilibrium([u - 0.2], t_0=t0)
    xv = 1 / (1.1 + 0.1 * t0)
    require(near(fl(xe), [xv], 1e-5) and near(fl(ye), [1 / ((c + 0.3 * i) * xv) for i in range(k)], 1e-5), "equilibrium-singular", lambda: "%s: %s %s %s" % (sc, xe, ye, ue))
    yv = s.find_algebraic_variable(ca.DM([0.8]), ca.DM([0.1]), t=t0)
    require(near(fl(yv), [1 / ((c + 0.3 * i) * 0.8) for i in range(k)], 1e-6), "algebraic-singular", "%s" % yv)
    tr.step(2)
    tr.state(sc)


def run_branch(sc, tr):
    """An algebraic equation with two solutions: the initial value (given, or the problem's guess) selects one."""
    import casadi as ca
    from yaocptool.modelling import OptimalControlProblem, SystemModel

    sign, how, t0, span, K, integ, x0form = sc
    s = SystemModel("branch")
    x, y, u = s.create_state("x", 2), s.create_algebraic_variable("y"), s.create_control("u")
    s.include_equations(ode=[-x[0] + 0.5 * y, u - 0.2 * x[1] + 0.1 * s.t], x=x, alg=[y * y - x[0] * x[0] - 4])
    xv, uvv = [0.7, -0.4], 0.3
    tf = [t0 + span * (k + 1) / K for k in range(K)]
    kw = {} if integ is None else {"integrator_type": integ}
    if how == "model":
        res = s.simulate(x_0=xv, t_0=t0, t_f=tf, y_0=2 * sign, u=uvv, **kw)
    else:
        ocp = OptimalControlProblem(s, t_0=t0, t_f=t0 + span)
        ocp.x_0 = xv if x0form == "list" else ca.DM(xv)
        if x0form == "list":
            ocp.x_max, ocp.u_min = [10, 10], [-3]
        ocp.y_guess = ca.DM([2.0 * sign if how == "guess" else -2.0 * sign])
        if how == "given":
            kw["y_0"] = 2.0 * sign
        res = ocp.simulate(u=uvv, finite_elements=K, **kw)
    xr, ta = list(xv), t0
    rt = [float(v) for v in res.get_entry("x")[0].full().ravel()]
    require(near(rt, [t0] + tf, 1e-9), "branch-time", lambda: "%s: times %s expected %s" % (sc, rt, [t0] + tf))
    g = lambda x: sign * (x[0] * x[0] + 4) ** 0.5  # noqa: E731
    f = lambda t, x: [-x[0] + 0.5 * g(x), uvv - 0.2 * x[1] + 0.1 * t]  # noqa: E731
    for k, tb in enumerate(tf):
        h = (tb - ta) / 100
        for i in range(100):
            t = ta + i * h
            k1 = f(t, xr)
            k2 = f(t + h / 2, [a + h / 2 * b for a, b in zip(xr, k1)])
            k3 = f(t + h / 2, [a + h / 2 * b for a, b in zip(xr, k2)])
            k4 = f(t + h, [a + h * b for a, b in zip(xr, k3)])
            xr = [a + h / 6 * (b + 2 * c + 2 * d + e) for a, b, c, d, e in zip(xr, k1, k2, k3, k4)]
        require(near(col(res.get_entry("x")[1], k + 1), xr), "branch-value", lambda: "%s: x(%s)=%s expected %s" % (sc, tb, res.get_entry("x")[1], xr))
        require(near(col(res.get_entry("y")[1], k), [g(xr)]), "branch-value:y", lambda: "%s: y(%s)=%s expected %s" % (sc, tb, res.get_entry("y")[1], g(xr)))
        ta = tb
        tr.step()
    tr.state(sc)


def build(tier):
    import yaocptool.modelling  # noqa: F401

    th = tier == "thorough"
    sims = []
    for name, m in MODELS.items():
        ny = m["n"][1]
        integs = [None, "implicit", "idas", "collocation"] if ny else [None, "implicit", "explicit", "rk", "cvodes", "collocation", "idas"]
        for t0 in (0.0, 1.5, -1.0):
            for g in GRIDS:
                for uf in ("const", "dict"):
                    for form in ("list", "DM"):
                        for it in integs:
                            if not th and it not in (None,) and (form == "DM" or g in ("two", "twelve") or t0 == -1.0):
                                continue
                            sims.append((name, t0, g, uf, form, it))
    ocp = [(n, t0, a, b, fe, gu) for n in MODELS for t0 in (0.0, 2.0, -0.5) for a in (False, True) for b in (False, True)
           for fe in (None, 1, 2, 3, 5) for gu in (False, True)]
    ocp = [s for s in ocp if not MODELS[s[0]].get("param") and not MODELS[s[0]].get("ramp") and not MODELS[s[0]].get("policy")]
    sing = [(c, k, t0) for c in (0.8, 1.0, 1.3) for k in (1, 2) for t0 in (0.0, 0.7)]
    branch = [(sg, h, t0, sp, K, it, xf) for sg in (1, -1) for h in ("model", "guess", "given") for t0 in (0, 2, 0.5) for sp in (1, 0.8) for K in (1, 3)
              for it in (None, "idas") for xf in (("DM",) if h == "model" else ("DM", "list"))]
    bad = [(n, w) for n in MODELS for w in ("zero", "zero-first", "u-count", "u-missing", "theta-missing", "tau", "type")]
    eq = [(a, b, ub, t0, ny) for a in (1.0, -0.5) for b in (0.5, 2.0) for ub in (0.3, -1.0) for t0 in (0.0, 1.0) for ny in (False, True)]
    eq2 = [(a, t0, c, g) for a in (0.5, -1.5) for t0 in (0.0, 1.2) for c in itertools.product(("u0", "y0"), ("u1", "x", "y1")) for g in (False, True)]
    alg = [(nx, ny, nu, np_, nth, t, f) for nx in (1, 2) for ny in (1, 2, 3) for nu in (1, 2) for np_ in (0, 1, 2) for nth in (0, 1, 2) for t in (0.0, 1.7) for f in ("list", "DM", "guess")]
    return [core.Suite("simulate", sims, run_sim), core.Suite("problem-simulate", ocp, run_ocp), core.Suite("refused", bad, run_bad),
            core.Suite("equilibrium-linearize", eq, run_equilibrium), core.Suite("equilibrium-vector", eq2, run_equilibrium2),
            core.Suite("algebraic", alg, run_algebraic), core.Suite("singular-at-zero", sing, run_singular), core.Suite("algebraic-branch", branch, run_branch)]


if __name__ == "__main__":
    core.main("C09", build,
              {"quick": "9 models x 3 initial times x 4 time grids (up to 12 elements) x constant/per-element controls x argument forms x all integrators (reduced cross product); 6 models x problem.simulate argument combinations; 56 refused requests; 64 equilibria, 16 linearised models; 648 algebraic solutions over all sizes; 12 systems singular at zero; 240 simulations of a model whose algebraic equation has two solutions",
               "thorough": "full cross product"},
              ["reference trajectories from an independent RK4 (120 steps per element); agreement within 3e-4 relative"])
