"""Reference model of OptimalControlProblem and the operation alphabet on it.

The model part is the reference of model_ref; on top of it every live scalar has its own bounds, guesses and
initial value, and the costs and constraints are polynomials.
"""
import copy
import math

from . import model_ref as mr
from .core import Disagreement, require
from .sym import Env, Poly, as_poly, compare, point

P = Poly.tok
INF = math.inf


class ORef:
    def __init__(self, m):
        self.m = m
        self.x0v = {}
        self.xb, self.yb, self.ub, self.db = {}, {}, {}, {}
        self.pb, self.tb = {}, {}
        self.p_opt, self.theta_opt = [], []
        self.yg = None  # None or dict tok -> value
        self.ug = None
        self.last_u = None
        self.L = self.V = self.S = Poly()
        self.h, self.h_i, self.h_f = [], [], []
        self.g_eq, self.g_in = [], []  # (poly, when)
        self.t_0, self.t_f = 0.0, 1.0
        self.eta = []
        self.merged = 0
        self.positive = False
        for t, s in zip(m.x, m.x0):
            self.xb[t] = (-INF, INF)
            self.x0v[t] = 0.0
            self.h_i.append(P(t) - P(s))
        for t in m.y:
            self.yb[t] = (-INF, INF)
        for t in m.u:
            self.ub[t] = self.db[t] = (-INF, INF)

    def copy(self):
        return copy.deepcopy(self)

    def subst(self, mp):
        self.m.subst(mp)
        self.L, self.V, self.S = (e.subs(mp) for e in (self.L, self.V, self.S))
        self.h = [e.subs(mp) for e in self.h]
        self.h_i = [e.subs(mp) for e in self.h_i]
        self.h_f = [e.subs(mp) for e in self.h_f]
        self.g_eq = [(e.subs(mp), w) for e, w in self.g_eq]
        self.g_in = [(e.subs(mp), w) for e, w in self.g_in]

    def key(self):
        d = lambda q: None if q is None else tuple(sorted(q.items()))
        return (self.m.key(), d(self.x0v), d(self.xb), d(self.yb), d(self.ub), d(self.db), d(self.pb), d(self.tb), tuple(self.p_opt),
                tuple(self.theta_opt), d(self.yg), d(self.ug), d(self.last_u), self.L.key(), self.V.key(), self.S.key(),
                tuple(e.key() for e in self.h + self.h_i + self.h_f), tuple((e.key(), w) for e, w in self.g_eq + self.g_in))


# ---------------------------------------------------------------- alphabet
OPS = {}


def op(name):
    def deco(cls):
        OPS[name] = cls
        return cls

    return deco


def lo(t):
    return -1.0 - t / 7.0


def hi(t):
    return 2.0 + t / 5.0


def gu(t):
    return 0.25 + t / 11.0


def form(vals, how):
    import casadi as ca

    if how == "list":
        return list(vals)
    return ca.DM(list(vals))


def _state(how, k, bounds, x0, eq):
    class Op:
        @staticmethod
        def plan(r):
            pl = {"toks": r.m.fresh(k)}
            r2 = r.copy()
            r2.m.x += pl["toks"]
            if eq:
                pl["eqs"] = [mr.rhs(r2.m, 3 + i) for i in range(k)]
            if x0 == "h":
                pl["h"] = [P(t) - 3 - i for i, t in enumerate(pl["toks"])]
            return pl

        @staticmethod
        def effect(r, pl):
            r.m.x += pl["toks"]
            pl["x0"] = r.m.fresh(k)
            r.m.x0 += pl["x0"]
            for i, t in enumerate(pl["toks"]):
                r.m.ode[t] = pl["eqs"][i] if eq else None
                r.xb[t] = (lo(t), hi(t)) if bounds else (-INF, INF)
                r.x0v[t] = gu(t) if x0 == "v" else 0.0
                if x0 == "v":
                    r.h_i.append(P(pl["x0"][i]) - P(t))
                elif x0 == "h":
                    r.h_i.append(pl["h"][i])

        @staticmethod
        def act(o, env, pl):
            import casadi as ca

            kw = {}
            T = pl["toks"]
            f = "list" if k == 2 else "DM"
            if bounds:
                kw.update(x_min=form(map(lo, T), f), x_max=form(map(hi, T), f))
            if x0 == "v":
                kw["x_0"] = form(map(gu, T), f)
            if how == "create":
                # the equations mention the state itself: given afterwards
                if x0 == "h":
                    kw["h_initial"] = ca.SX.zeros(k)
                v = o.create_state(env.one_name or "x%d" % T[0], size=k, **kw)
                env.bind_vec(T, v)
                if x0 == "h":
                    o.h_initial = ca.vertcat(o.h_initial[: o.h_initial.numel() - k], env.sxs(pl["h"]))
                env.bind_vec(pl["x0"], o.model.x_0[-k:])
                if eq:
                    o.include_system_equations(ode=None) if False else o.model.include_equations(ode=env.sxs(pl["eqs"]), x=v)
            else:
                v = ca.SX.sym(env.one_name or "x%d" % T[0], k)
                env.bind_vec(T, v)
                if x0 == "h":
                    kw["h_initial"] = env.sxs(pl["h"])
                if x0 == "s":
                    kw["suppress"] = True
                o.include_state(v, ode=env.sxs(pl["eqs"]) if eq else None, **kw)
                env.bind_vec(pl["x0"], o.model.x_0[-k:])

    return Op


OPS["state_create2_x0_b"] = _state("create", 2, True, "v", True)
OPS["state_include1_x0"] = _state("include", 1, False, "v", True)
OPS["state_include2_h_b"] = _state("include", 2, True, "h", True)
OPS["state_include1_suppress"] = _state("include", 1, True, "s", True)


def _alg(how, k, bounds, guess, eq):
    class Op:
        @staticmethod
        def plan(r):
            pl = {"toks": r.m.fresh(k)}
            r2 = r.copy()
            r2.m.y += pl["toks"]
            if eq:
                pl["eqs"] = [mr.rhs(r2.m, 4 + i) for i in range(k)]
            return pl

        @staticmethod
        def effect(r, pl):
            T = pl["toks"]
            if r.yg is not None:
                r.yg.update({t: gu(t) if guess else 0.0 for t in T})
            elif guess and not r.m.y:
                r.yg = {t: gu(t) for t in T}
            r.m.y += T
            if eq:
                r.m.alg += pl["eqs"]
            for t in T:
                r.yb[t] = (lo(t), hi(t)) if bounds else (-INF, INF)

        @staticmethod
        def act(o, env, pl):
            import casadi as ca

            T = pl["toks"]
            f = "list" if k == 2 else "DM"
            kw = {}
            if bounds:
                kw.update(y_min=form(map(lo, T), f), y_max=form(map(hi, T), f))
            if guess:
                kw["y_guess"] = form(map(gu, T), f)
            if how == "create":
                v = o.create_algebraic(env.one_name or "y%d" % T[0], size=k, **kw)
                env.bind_vec(T, v)
                if eq:
                    o.include_system_equations(alg=env.sxs(pl["eqs"]))
            else:
                v = ca.SX.sym(env.one_name or "y%d" % T[0], k)
                env.bind_vec(T, v)
                o.include_algebraic(v, alg=env.sxs(pl["eqs"]) if eq else None, **kw)

    return Op


OPS["alg_create2_bg"] = _alg("create", 2, True, True, True)
OPS["alg_include1"] = _alg("include", 1, False, False, True)
OPS["alg_include2_b"] = _alg("include", 2, True, False, True)


def _ctl(how, k, bounds, guess):
    class Op:
        @staticmethod
        def plan(r):
            if not guess and r.ug is not None:
                return {"toks": r.m.fresh(k), "refuse": True}
            return {"toks": r.m.fresh(k)}

        @staticmethod
        def effect(r, pl):
            if pl.get("refuse"):
                return
            T = pl["toks"]
            if guess:
                if not r.m.u:
                    r.ug = {t: gu(t) for t in T}
                elif r.ug is not None:
                    r.ug.update({t: gu(t) for t in T})
            r.m.u += T
            r.m.u_par += T
            r.m.u_expr += [P(t) for t in T]
            for t in T:
                b = T[0] if bounds == "scalar" else t
                r.ub[t] = (lo(b), hi(b)) if bounds else (-INF, INF)
                r.db[t] = (lo(b) / 2, hi(b) / 2) if bounds else (-INF, INF)

        @staticmethod
        def act(o, env, pl):
            import casadi as ca

            T = pl["toks"]
            kw = {}
            if bounds == "scalar":
                kw = dict(u_min=lo(T[0]), u_max=hi(T[0]), delta_u_min=lo(T[0]) / 2, delta_u_max=hi(T[0]) / 2)
            elif bounds:
                kw = dict(u_min=form(map(lo, T), bounds), u_max=form(map(hi, T), bounds),
                          delta_u_min=form([lo(t) / 2 for t in T], bounds), delta_u_max=form([hi(t) / 2 for t in T], bounds))
            if guess:
                kw["u_guess"] = form(map(gu, T), "list" if k > 1 else "DM")
            v = ca.SX.sym(env.one_name or "u%d" % T[0], k)

            def go():
                return o.create_control(env.one_name or "u%d" % T[0], size=k, **kw) if how == "create" else o.include_control(v, **kw)

            if pl.get("refuse"):
                mr.refused(go, "a control without guess on a problem with guesses")
                return
            w = go()
            env.bind_vec(T, w if how == "create" else v)

    return Op


OPS["ctl_create2_scalar"] = _ctl("create", 2, "scalar", False)
OPS["ctl_include2_g"] = _ctl("include", 2, "list", True)
OPS["ctl_include1"] = _ctl("include", 1, None, False)
OPS["ctl_create1_bg"] = _ctl("create", 1, "DM", True)


def _par(kind, how, k, bounds, opt):
    class Op:
        @staticmethod
        def plan(r):
            if how == "set":
                vec = getattr(r.m, kind)
                left = [t for t in vec if t not in (r.p_opt if kind == "p" else r.theta_opt)]
                return {"toks": left[-1:]} if left else None
            return {"toks": r.m.fresh(k)}

        @staticmethod
        def effect(r, pl):
            T = pl["toks"]
            if how != "set":
                getattr(r.m, kind).extend(T)
            if opt:
                (r.p_opt if kind == "p" else r.theta_opt).extend(T)
                (r.pb if kind == "p" else r.tb).update({t: (lo(t), hi(t)) if bounds else (-INF, INF) for t in T})

        @staticmethod
        def act(o, env, pl):
            import casadi as ca

            T = pl["toks"]
            a, b = (form(map(lo, T), "DM"), form(map(hi, T), "DM")) if bounds else (None, None)
            long_ = "parameter" if kind == "p" else "theta"
            nm = env.one_name or "%s%d" % (kind, T[0])
            if how == "set":
                getattr(o, "set_%s_as_optimization_%s" % (long_, long_))(env.vec(T), a, b)
            elif not opt:
                v = getattr(o, "create_" + long_)(nm, k)
                env.bind_vec(T, v)
            elif how == "create":
                v = getattr(o, "create_optimization_" + long_)(nm, k, a, b)
                env.bind_vec(T, v)
            else:
                v = ca.SX.sym(nm, k)
                env.bind_vec(T, v)
                getattr(o, "include_optimization_" + long_)(v, a, b)

    return Op


OPS["p_create2"] = _par("p", "create", 2, False, False)
OPS["p_opt_create2_b"] = _par("p", "create", 2, True, True)
OPS["p_opt_include1"] = _par("p", "include", 1, False, True)
OPS["p_opt_set_b"] = _par("p", "set", 1, True, True)
OPS["th_create2"] = _par("theta", "create", 2, False, False)
OPS["th_opt_create2_b"] = _par("theta", "create", 2, True, True)
OPS["th_opt_include1_b"] = _par("theta", "include", 1, True, True)
OPS["th_opt_set"] = _par("theta", "set", 1, False, True)


def _drop_u(r, us):
    for d in (r.ub, r.db, r.ug, r.last_u):
        if d is not None:
            for t in us:
                d.pop(t)


def _remove(kind, which):
    inner = mr.OPS["remove_%s_%s" % (kind, which)]

    class Op:
        @staticmethod
        def plan(r):
            return inner.plan(r.m)

        @staticmethod
        def effect(r, pl):
            inner.effect(r.m, pl)
            if kind == "y":
                for t in pl["toks"]:
                    r.yb.pop(t)
                    if r.yg is not None:
                        r.yg.pop(t)
            else:
                _drop_u(r, pl["toks"])

        @staticmethod
        def act(o, env, pl):
            (o.remove_algebraic if kind == "y" else o.remove_control)(env.vec(pl["toks"]))

    return Op


for _k in "yu":
    for _w in ("first", "mid", "last", "two"):
        OPS["remove_%s_%s" % (_k, _w)] = _remove(_k, _w)


@op("remove_y_eq")
class _RemEq:
    @staticmethod
    def plan(r):
        return mr.OPS["remove_y_with_eq"].plan(r.m)

    @staticmethod
    def effect(r, pl):
        mr.OPS["remove_y_with_eq"].effect(r.m, pl)
        r.yb.pop(pl["tok"])
        if r.yg is not None:
            r.yg.pop(pl["tok"])

    @staticmethod
    def act(o, env, pl):
        o.remove_algebraic(env.sym[pl["tok"]], o.model.alg[pl["i"]])


def _connect(kind):
    inner = mr.OPS["connect_" + kind]

    class Op:
        @staticmethod
        def plan(r):
            return inner.plan(r.m)

        @staticmethod
        def effect(r, pl):
            us = pl["u"]
            if kind.startswith("replace"):
                mp = {a: P(b) for a, b in zip(us, pl["y"])}
                m = r.m
                r.m = mr.Ref()
                r.subst(mp)
                r.m = m
                inner.effect(r.m, pl)
            else:
                inner.effect(r.m, pl)
                # the new algebraic entries appear in the order of the request, with their own bounds
                for t in us:
                    r.yb[t] = r.ub[t]
                    if r.yg is not None:
                        r.yg[t] = r.ug[t] if r.ug is not None else 0.0
            _drop_u(r, us)

        @staticmethod
        def act(o, env, pl):
            u, y = env.vec(pl["u"]), env.vec(pl["y"])
            o.connect(u, y, replace=True) if kind.startswith("replace") else o.connect(u, y)

    return Op


for _k in ("plain", "plain2", "replace", "replace2"):
    OPS["connect_" + _k] = _connect(_k)


@op("last_u")
class _LastU:
    @staticmethod
    def plan(r):
        return {"T": list(r.m.u)} if r.m.u else None

    @staticmethod
    def effect(r, pl):
        r.last_u = {t: gu(t) - 3 for t in pl["T"]}

    @staticmethod
    def act(o, env, pl):
        o.last_u = form([gu(t) - 3 for t in pl["T"]], "DM")


def _ctl_last_u_guard(name):
    # controls added after last_u was given: last_u no longer covers them; not a history of interest
    inner = OPS[name]

    class Op:
        plan = staticmethod(lambda r: None if r.last_u is not None else inner.plan(r))
        effect = inner.effect
        act = inner.act

    OPS[name] = Op


for _n in ("ctl_create2_scalar", "ctl_include2_g", "ctl_include1", "ctl_create1_bg"):
    _ctl_last_u_guard(_n)


# ---- costs and constraints
def expr(r, salt):
    e = mr.rhs(r.m, salt)
    for t in r.m.x[-1:] + r.m.u[-1:] + r.m.y[-1:]:
        e = e + salt * P(t) * P(t)
    return e


@op("costs")
class _Costs:
    @staticmethod
    def plan(r):
        return {"e": [expr(r, 2), expr(r, 5), expr(r, 9)]}

    @staticmethod
    def effect(r, pl):
        r.L, r.V, r.S = pl["e"]

    @staticmethod
    def act(o, env, pl):
        o.L, o.V, o.S = (env.sx(e) for e in pl["e"])


@op("costs_const")
class _CostsConst:
    """Constant costs: still costs."""

    plan = staticmethod(lambda r: {})

    @staticmethod
    def effect(r, pl):
        r.L, r.V, r.S = Poly.const(2), Poly.const(3), Poly.const(5)

    @staticmethod
    def act(o, env, pl):
        import casadi as ca

        o.L, o.V, o.S = ca.SX(2), ca.SX(3), ca.SX(5)


def _constr(kind, when, n):
    class Op:
        @staticmethod
        def plan(r):
            s = 3 + len(r.g_eq) + 2 * len(r.g_in) + len(r.h)
            return {"e": [expr(r, s + i) for i in range(n)]}

        @staticmethod
        def effect(r, pl):
            w = when or "default"
            if kind == "eq":
                r.g_eq += [(e, w) for e in pl["e"]]
            elif kind == "ineq":
                r.g_in += [(e, w) for e in pl["e"]]
            elif kind == "init":
                r.h_i += pl["e"]
            elif kind == "final":
                r.h_f += pl["e"]
            else:
                r.h += pl["e"]

        @staticmethod
        def act(o, env, pl):
            e = [env.sx(q) for q in pl["e"]] if n > 1 else env.sx(pl["e"][0])
            kw = {} if when is None else {"when": when}
            {"eq": o.include_time_equality, "ineq": o.include_time_inequality, "init": o.include_initial_time_equality,
             "final": o.include_final_time_equality, "h": o.include_equality}[kind](e, **kw)

    return Op


def _sparse(kind, when):
    """A vector constraint with a structural zero: both entries are constraints, with their evaluation time."""
    inner = _constr(kind, when, 2)

    class Op:
        plan = staticmethod(lambda r: {"e": [expr(r, 4 + len(r.g_eq) + 2 * len(r.g_in)), Poly()]})
        effect = inner.effect

        @staticmethod
        def act(o, env, pl):
            import casadi as ca

            e = ca.SX(2, 1)
            e[0] = env.sx(pl["e"][0])
            {"eq": o.include_time_equality, "ineq": o.include_time_inequality}[kind](e, when=when)

    return Op


OPS["eq_sparse"] = _sparse("eq", "start")
OPS["ineq_sparse"] = _sparse("ineq", "end")
OPS["eq_default"] = _constr("eq", None, 1)
OPS["eq_end2"] = _constr("eq", "end", 2)
OPS["ineq_start"] = _constr("ineq", "start", 1)
OPS["ineq_default2"] = _constr("ineq", None, 2)
OPS["h_initial"] = _constr("init", None, 1)
OPS["h_final2"] = _constr("final", None, 2)
OPS["h_plain"] = _constr("h", None, 1)


def _replace(kind):
    inner = mr.OPS["replace_" + kind]

    class Op:
        plan = staticmethod(lambda r: inner.plan(r.m))
        effect = staticmethod(lambda r, pl: r.subst(pl["mp"]))

        @staticmethod
        def act(o, env, pl):
            ks = list(pl["mp"])
            if kind == "swap":
                o.replace_variable([env.sym[k] for k in ks], [env.sx(pl["mp"][k]) for k in ks])
            else:
                o.replace_variable(env.vec(ks), env.sxs([pl["mp"][k] for k in ks]))

    return Op


for _k in ("p_const", "swap", "any_expr", "time"):
    OPS["replace_" + _k] = _replace(_k)


def _parametrize(kind):
    inner = mr.OPS["parametrize_" + kind]

    class Op:
        plan = staticmethod(lambda r: inner.plan(r.m))

        @staticmethod
        def effect(r, pl):
            if not pl.get("refuse"):
                m, r.m = r.m, mr.Ref()
                r.subst(dict(zip(pl["us"], pl["ex"])))
                r.m = m
            inner.effect(r.m, pl)

        act = inner.act

    return Op


for _k in ("feedback", "affine", "two", "again"):
    OPS["parametrize_" + _k] = _parametrize(_k)


@op("cost_state")
class _CostState:
    @staticmethod
    def plan(r):
        return {"tok": r.m.fresh(1)[0], "e": r.L}

    @staticmethod
    def effect(r, pl):
        t = pl["tok"]
        pl["x0"] = s = r.m.fresh(1)[0]
        r.m.x.append(t)
        r.m.x0.append(s)
        r.m.ode[t] = pl["e"]
        r.xb[t] = (0.0 if r.positive else -INF, INF)
        r.x0v[t] = 0.0
        r.h_i.append(P(s) - P(t))

    @staticmethod
    def act(o, env, pl):
        v = o.create_cost_state()
        require(o.x_cost is v or (o.x_cost - v).is_zero(), "x_cost", "")
        env.bind(pl["tok"], v)
        env.bind(pl["x0"], o.model.x_0[-1])


@op("null_obj")
class _NullObj:
    plan = staticmethod(lambda r: {})
    effect = staticmethod(lambda r, pl: None)

    @staticmethod
    def act(o, env, pl):
        o.NULL_OBJ = True


@op("positive")
class _Positive:
    plan = staticmethod(lambda r: {})

    @staticmethod
    def effect(r, pl):
        r.positive = True

    @staticmethod
    def act(o, env, pl):
        o.positive_objective = True


def _quad(keys):
    class Op:
        @staticmethod
        def plan(r):
            m = r.m
            if not m.x or not m.u:
                return None
            nx, nu = len(m.x), len(m.u)
            W = lambda n, s: [[float(s + 2 * i + 3 * j) for j in range(n)] for i in range(n)]
            d = {"Q": W(nx, 1), "R": W(nu, 2), "Qv": W(nx, 3), "Rv": W(nx, 5), "x_ref": [0.5 + i for i in range(nx)], "u_ref": [1.5 - i for i in range(nu)]}
            return {"d": {k: d[k] for k in keys}}

        @staticmethod
        def effect(r, pl):
            d, m = pl["d"], r.m
            x = [P(t) for t in m.x]
            u = [P(t) for t in m.u]
            xr = d.get("x_ref", [0] * len(x))
            ur = d.get("u_ref", [0] * len(u))
            q = lambda v, W: sum((W[i][j] * (v[i] * v[j]) for i in range(len(v)) for j in range(len(v))), Poly())
            dx = [a - b for a, b in zip(x, xr)]
            du = [a - b for a, b in zip(u, ur)]
            r.L = (q(dx, d["Q"]) if "Q" in d else Poly()) + (q(du, d["R"]) if "R" in d else Poly())
            r.V = (q(dx, d["Qv"]) if "Qv" in d else Poly()) + (q(x, d["Rv"]) if "Rv" in d else Poly())

        @staticmethod
        def act(o, env, pl):
            import casadi as ca

            o.create_quadratic_cost({k: ca.DM(v) for k, v in pl["d"].items()})

    return Op


OPS["quad_all"] = _quad(("Q", "R", "Qv", "Rv", "x_ref", "u_ref"))
OPS["quad_QR"] = _quad(("Q", "R"))
QUAD_KEYS = ("Q", "R", "Qv", "Rv", "x_ref", "u_ref")
QUADS = ["quad:" + "".join("01"[b >> i & 1] for i in range(6)) for b in range(64)]
for _n in QUADS:
    OPS[_n] = _quad(tuple(k for k, c in zip(QUAD_KEYS, _n[5:]) if c == "1"))
OPS["quad_xref"] = _quad(("Q", "Qv", "x_ref"))


@op("adjoint")
class _Adjoint:
    """Only as the last operation."""

    @staticmethod
    def plan(r):
        m = r.m
        if not m.x or any(m.ode[t] is None for t in m.x) or len(m.alg) != len(m.y):
            return None
        return {"lamb": m.fresh(len(m.x)), "nu": m.fresh(len(m.y)), "eta": m.fresh(len(r.h_f))}

    @staticmethod
    def effect(r, pl):
        m = r.m
        H = r.L
        for l, t in zip(pl["lamb"], m.x):
            H = H + P(l) * m.ode[t]
        for n, a in zip(pl["nu"], m.alg):
            H = H + P(n) * a
        r.H = H
        r.eta = pl["eta"]
        X = list(m.x)
        pl["l0"] = m.fresh(len(X))
        r.h_f = r.h_f + [P(l) - r.V.diff(t) - sum((r.h_f[i].diff(t) * P(e) for i, e in enumerate(pl["eta"])), Poly())
                         for l, t in zip(pl["lamb"], X)]
        ny = [H.diff(t) for t in m.y]
        for l, t, s in zip(pl["lamb"], X, pl["l0"]):
            m.x.append(l)
            m.x0.append(s)
            m.ode[l] = -H.diff(t)
            r.xb[l] = (-INF, INF)
            r.x0v[l] = 0.0
        m.alg += ny
        if pl["nu"] or True:
            if r.yg is not None:
                r.yg.update({t: 0.0 for t in pl["nu"]})
            m.y += pl["nu"]
            r.yb.update({t: (-INF, INF) for t in pl["nu"]})

    @staticmethod
    def act(o, env, pl):
        n = o.model.n_x
        o.create_adjoint_states()
        env.bind_vec(pl["lamb"], o.model.x[n:])
        env.bind_vec(pl["l0"], o.model.x_0[n:])
        k = len(pl["nu"])
        env.bind_vec(pl["nu"], o.model.y[o.model.n_y - k:])
        env.bind_vec(pl["eta"], o.eta)


def _refuse(kind):
    class Op:
        @staticmethod
        def plan(r):
            if kind == "x_again":
                return {"v": r.m.x[0]} if r.m.x else None
            if kind in ("p_opt",):
                return {"v": r.m.p[0]} if r.m.p else None
            if kind in ("connect_size",):
                return {"v": r.m.u[0], "w": r.m.y[:1]} if r.m.u and r.m.y else None
            if kind == "u_guess":
                return {}
            return {}

        effect = staticmethod(lambda r, pl: None)

        @staticmethod
        def act(o, env, pl):
            import casadi as ca

            v = ca.SX.sym("v", 2)
            three = ca.DM([1, 2, 3])
            calls = {
                "x_min": lambda: o.include_state(v, x_0=ca.DM([1, 2]), x_min=three),
                "x_max": lambda: o.include_state(v, x_0=ca.DM([1, 2]), x_max=[1]),
                "x_0": lambda: o.include_state(v, x_0=[1]),
                "x_none": lambda: o.include_state(v),
                "y_min": lambda: o.include_algebraic(v, y_min=three),
                "y_max": lambda: o.include_algebraic(v, y_max=[1]),
                "u_min": lambda: o.include_control(v, u_min=three, u_guess=[1, 2]),
                "u_max": lambda: o.include_control(v, u_max=[1, 2, 3], u_guess=[1, 2]),
                "du_min": lambda: o.include_control(v, delta_u_min=three, u_guess=[1, 2]),
                "du_max": lambda: o.include_control(v, delta_u_max=three, u_guess=[1, 2]),
                "u_guess": lambda: o.include_control(v, u_guess=[1, 2, 3]),
                "x_again": lambda: o.include_state(env.sym[pl["v"]], x_0=ca.DM([1])),
                "p_opt": lambda: o.set_parameter_as_optimization_parameter(env.sym[pl["v"]], ca.DM([1, 2]), ca.DM([3])),
                "replace_size": lambda: o.replace_variable(v, ca.SX([1])),
                "connect_size": lambda: o.connect(ca.vertcat(env.sym[pl["v"]], env.sym[pl["v"]]), env.vec(pl["w"])),
            }
            mr.refused(calls[kind], "refusal " + kind)

    return Op


REFUSALS = ["x_min", "x_max", "x_0", "x_none", "y_min", "y_max", "u_min", "u_max", "du_min", "du_max", "u_guess", "x_again", "p_opt",
            "replace_size", "connect_size"]
for _k in REFUSALS:
    OPS["refuse_" + _k] = _refuse(_k)


# ---------------------------------------------------------------- merging
LIBRARY = {
    # model history, problem history
    "full": (("create_x_2", "create_y_1", "create_u_1", "create_p_1", "create_theta_1", "ode_vec_guess", "alg_equality"),
             ("p_opt_create2_b", "th_opt_include1_b", "ctl_create1_bg", "costs", "eq_default", "ineq_start", "h_final2", "h_plain", "h_initial")),
    "guessed": ((), ("state_create2_x0_b", "ctl_include2_g", "alg_create2_bg", "last_u", "costs", "eq_end2", "positive")),
    "ode": (("create_x_1", "create_u_1", "ode_vec_guess"), ("last_u", "costs", "ineq_default2")),
    "bare": (("create_x_1", "ode_vec_guess"), ("costs", "h_final2")),
}


def build_problem(kind, base, env, t_f=1.0):
    from yaocptool.modelling import OptimalControlProblem

    mh, oh = LIBRARY[kind]
    m, env, ref = mr.build_model(mh, base=base, env=env, name="m%d" % base)
    r = ORef(ref)
    o = OptimalControlProblem(m, name="o%d" % base, x_0=[gu(t) for t in ref.x], t_f=t_f)
    r.x0v = {t: gu(t) for t in ref.x}
    r.t_f = t_f
    for n in oh:
        pl = OPS[n].plan(r)
        OPS[n].effect(r, pl)
        OPS[n].act(o, env, pl)
    return o, r


def _lib_ref(kind, base):
    mh, oh = LIBRARY[kind]
    ref = mr.Ref(base)
    for n in mh:
        mr.step(ref, n)
    r = ORef(ref)
    r.x0v = {t: gu(t) for t in ref.x}
    for n in oh:
        OPS[n].effect(r, OPS[n].plan(r)) if False else None
        pl = OPS[n].plan(r)
        OPS[n].effect(r, pl)
    return r


def _merge(kind):
    class Op:
        @staticmethod
        def plan(r):
            r.merged += 1
            return {"base": r.m.t + 1000 * r.merged}

        @staticmethod
        def effect(r, pl):
            q = _lib_ref(kind, pl["base"])
            mp = {q.m.t: P(r.m.t), q.m.tau: P(r.m.tau)}
            q.subst(mp)
            m, n = r.m, q.m

            def join(a, b, empty, other_empty):
                if b is None and other_empty:
                    return a
                if a is None and empty and b is not None:
                    return dict(b)
                if a is not None and b is not None:
                    return {**a, **b}
                return None

            r.last_u = join(r.last_u, q.last_u, not m.u, not n.u)
            r.yg = join(r.yg, q.yg, not m.y, not n.y)
            r.ug = join(r.ug, q.ug, not m.u, not n.u)
            m.x += n.x
            m.x0 += n.x0
            m.ode.update(n.ode)
            m.y += n.y
            m.alg += n.alg
            m.u += n.u
            m.u_par += n.u_par
            m.u_expr += n.u_expr
            m.parametrized |= n.parametrized
            m.p += n.p
            m.theta += n.theta
            for a in ("x0v", "xb", "yb", "ub", "db", "pb", "tb"):
                getattr(r, a).update(getattr(q, a))
            r.p_opt += q.p_opt
            r.theta_opt += q.theta_opt
            r.L, r.V, r.S = r.L + q.L, r.V + q.V, r.S + q.S
            r.h += q.h
            r.h_i += q.h_i
            r.h_f += q.h_f
            r.g_eq += q.g_eq
            r.g_in += q.g_in
            r.positive = r.positive and q.positive

        @staticmethod
        def act(o, env, pl):
            other, q = build_problem(kind, pl["base"], env)
            o.merge([other])
            pl["check"] = (other, q)

    return Op


for _k in LIBRARY:
    OPS["merge_" + _k] = _merge(_k)


def _merge_many(kinds, form):
    """several problems in one call"""
    class Op:
        @staticmethod
        def plan(r):
            return {"parts": [OPS["merge_" + k].plan(r) for k in kinds]}

        @staticmethod
        def effect(r, pl):
            for k, q in zip(kinds, pl["parts"]):
                OPS["merge_" + k].effect(r, q)

        @staticmethod
        def act(o, env, pl):
            built = [build_problem(k, q["base"], env) for k, q in zip(kinds, pl["parts"])]
            o.merge(form(b[0] for b in built))
            pl["checks"] = built

    return Op


OPS["merge_2"] = _merge_many(("full", "ode"), list)
OPS["merge_2b"] = _merge_many(("guessed", "full"), iter)
OPS["merge_3"] = _merge_many(("bare", "full", "guessed"), tuple)
OPS["merge_0"] = _merge_many((), list)


@op("merge_other_horizon")
class _MergeBad:
    @staticmethod
    def plan(r):
        r.merged += 1
        return {"base": r.m.t + 1000 * r.merged}

    effect = staticmethod(lambda r, pl: None)

    @staticmethod
    def act(o, env, pl):
        other, q = build_problem("ode", pl["base"], env, t_f=2.0)
        mr.refused(lambda: o.merge([other]), "merging problems on different horizons")
        other.t_0, other.t_f = -1.0, 1.0
        mr.refused(lambda: o.merge([other]), "merging problems on different horizons")


# ---------------------------------------------------------------- observation
def vec_equal(got, exp, what):
    import casadi as ca

    got = [float(v) for v in ca.DM(got).full().ravel()] if got is not None else None
    require(got is not None and len(got) == len(exp), "size:" + what, lambda: "%s is %s, expected %s" % (what, got, exp))
    ok = all(a == b or abs(a - b) < 1e-12 for a, b in zip(got, exp))
    require(ok, "value:" + what, lambda: "%s is %s, expected %s" % (what, got, exp))


def observe_vectors(o, env, r):
    m = r.m
    for vec_name in ("x", "y", "u", "p", "theta", "u_par"):
        got = env.toks_of(getattr(o.model, vec_name), vec_name)
        require(got == getattr(m, vec_name), "vector:" + vec_name, lambda: "%s: %s expected %s" % (vec_name, got, getattr(m, vec_name)))
    require(env.toks_of(o.model.x_0, "x_0") == m.x0, "vector:model.x_0", "")
    vec_equal(o.x_0, [r.x0v[t] for t in m.x], "x_0")
    for vn, toks, d in (("x", m.x, r.xb), ("y", m.y, r.yb), ("u", m.u, r.ub), ("delta_u", m.u, r.db), ("p_opt", r.p_opt, r.pb), ("theta_opt", r.theta_opt, r.tb)):
        vec_equal(getattr(o, vn + "_min"), [d[t][0] for t in toks], vn + "_min")
        vec_equal(getattr(o, vn + "_max"), [d[t][1] for t in toks], vn + "_max")
    for nm, toks, d in (("y_guess", m.y, r.yg), ("u_guess", m.u, r.ug), ("last_u", m.u, r.last_u)):
        if d is None:
            require(getattr(o, nm) is None, "guess:" + nm, lambda: "%s is %s, expected None" % (nm, getattr(o, nm)))
        else:
            vec_equal(getattr(o, nm), [d[t] for t in toks], nm)
    require(env.toks_of(o.p_opt, "p_opt") == r.p_opt, "vector:p_opt", "")
    require(env.toks_of(o.theta_opt, "theta_opt") == r.theta_opt, "vector:theta_opt", "")
    require(o.n_p_opt == len(r.p_opt) and o.n_theta_opt == len(r.theta_opt), "count:opt", "")
    # the indices select, in p (theta), exactly the optimised ones, in order
    gi = [int(i) for i in o.get_p_opt_indices()]
    require([m.p[i] for i in gi] == r.p_opt, "p_opt_indices", lambda: "%s" % gi)
    gi = [int(i) for i in o.get_theta_opt_indices()]
    require([m.theta[i] for i in gi] == r.theta_opt, "theta_opt_indices", lambda: "%s" % gi)
    require(bool(o.has_delta_u) == any(r.db[t] != (-INF, INF) for t in m.u), "has_delta_u", lambda: "%s" % o.has_delta_u)
    complete = True
    try:
        o.pre_solve_check()
    except Exception as e:
        raise Disagreement("pre_solve_check", "refused a consistent problem: %s" % e)
    require(complete, "pre_solve_check", "")


def compare_abs(env, e, polys, what):
    """Equal up to the sign of each entry (constraints e == 0)."""
    import casadi as ca

    n = ca.SX(e).numel()
    require(n == len(polys), "size:" + what, lambda: "%s has %d entries, expected %d: %s" % (what, n, len(polys), e))
    for k in (0, 1):
        got = env.evaluate(e, k, what=what)
        val = point(k)
        for i, (g, p) in enumerate(zip(got, polys)):
            q = p.eval(val)
            require(abs(abs(g) - abs(q)) <= 1e-9 * (1 + abs(q)), "value:" + what, lambda: "%s[%d] is %r, expected +-%r" % (what, i, g, q))


def observe_meaning(o, env, r):
    m = r.m
    for nm in ("L", "V", "S"):
        compare(env, getattr(o, nm), [as_poly(getattr(r, nm))], nm)
    compare(env, o.h, r.h, "h")
    compare_abs(env, o.h_initial, r.h_i, "h_initial")
    compare(env, o.h_final, r.h_f, "h_final")
    compare(env, o.g_eq, [e for e, _ in r.g_eq], "g_eq")
    compare(env, o.g_ineq, [e for e, _ in r.g_in], "g_ineq")
    require(list(o.time_g_eq) == [w for _, w in r.g_eq], "time_g_eq", lambda: "%s" % o.time_g_eq)
    require(list(o.time_g_ineq) == [w for _, w in r.g_in], "time_g_ineq", lambda: "%s" % o.time_g_ineq)
    require((o.n_g_eq, o.n_g_ineq, o.n_h_final, o.n_h_initial) == (len(r.g_eq), len(r.g_in), len(r.h_f), len(r.h_i)), "counts", "")
    compare(env, o.model.ode, [m.ode[t] for t in m.x if m.ode[t] is not None], "model.ode")
    compare(env, o.model.alg, m.alg, "model.alg")
    compare(env, o.model.u_expr, m.u_expr, "model.u_expr")


BASES = {
    "empty": (),
    "rich": ("create_x_2", "create_y_2", "create_u_2", "create_p_2", "create_theta_1", "ode_vec_guess", "alg_list"),
    "wide": ("create_x_12", "create_y_12", "create_u_12", "create_p_12", "create_theta_12", "ode_vec_guess", "alg_list"),
}


def start_ref(base):
    ref = mr.Ref()
    for n in BASES[base]:
        mr.step(ref, n)
    r = ORef(ref)
    r.x0v = {t: gu(t) for t in ref.x}
    return r


def step(r, name):
    pl = OPS[name].plan(r)
    if pl is None:
        return None
    OPS[name].effect(r, pl)
    return pl


def sequences(base, alphabet, depth, prefix=()):
    out = []

    def rec(r, seq):
        if len(seq) == depth or (seq and seq[-1] == "adjoint"):
            out.append((base, tuple(prefix) + tuple(seq)))
            return
        n = 0
        for name in alphabet:
            r2 = r.copy()
            if step(r2, name) is None:
                continue
            n += 1
            rec(r2, seq + [name])
        if not n:
            out.append((base, tuple(prefix) + tuple(seq)))

    r = start_ref(base)
    for name in prefix:
        if step(r, name) is None:
            raise ValueError(name)
    rec(r, [])
    return out


def run(sc, tr, observers):
    from yaocptool.modelling import OptimalControlProblem

    base, seq = sc
    env = Env()
    if base.endswith("~"):  # every variable has the same name
        base, env.one_name = base[:-1], "v"
    m, env, ref = mr.build_model(BASES[base], name="m", env=env)
    r = ORef(ref)
    r.x0v = {t: gu(t) for t in ref.x}
    o = OptimalControlProblem(m, name="prob", x_0=[gu(t) for t in ref.x])
    for f in observers:
        f(o, env, r)
    tr.state(r.key())
    for i, name in enumerate(seq):
        pl = step(r, name)
        if pl is None:
            raise ValueError("not enabled: %s" % name)
        try:
            OPS[name].act(o, env, pl)
            for f in observers:
                f(o, env, r)
            for other, q in pl.get("checks", [pl["check"]] if "check" in pl else []):
                for f in observers:
                    f(other, env, q)
        except Disagreement as e:
            raise Disagreement(e.key, "after %s: %s" % (list(seq[: i + 1]), e.msg))
        tr.step()
        tr.state(r.key())
