"""Reference model of SystemModel and the operation alphabet on it.

`Ref` is a purely combinatorial state machine: ordered lists of tokens and
polynomials.  `apply(ref, op)` is the specified effect of the operation;
`execute(m, env, ref_before, plan)` performs the same operation through the public
API; `observe` compares the complete observable state.
"""
import copy

from .core import Disagreement, require
from .sym import Env, Poly, compare

P = Poly.tok


class Ref:
    def __init__(self, base=0):
        self.t, self.tau = base, base + 1
        self.x, self.x0, self.ode = [], [], {}
        self.y, self.alg = [], []
        self.u, self.u_par, self.u_expr = [], [], []
        self.parametrized = set()
        self.p, self.theta = [], []
        self.n = base + 2
        self.gone = []

    def fresh(self, k=1):
        r = list(range(self.n, self.n + k))
        self.n += k
        return r

    def copy(self):
        return copy.deepcopy(self)

    def key(self):
        return (
            tuple(self.x), tuple(self.x0),
            tuple((t, None if self.ode[t] is None else self.ode[t].key()) for t in self.x),
            tuple(self.y), tuple(a.key() for a in self.alg),
            tuple(self.u), tuple(self.u_par), tuple(e.key() for e in self.u_expr),
            tuple(sorted(self.parametrized)), tuple(self.p), tuple(self.theta),
        )

    def all_tokens(self):
        return [self.t] + self.x + self.y + self.u + self.p + self.theta

    def subst(self, mp):
        for t in self.ode:
            if self.ode[t] is not None:
                self.ode[t] = self.ode[t].subs(mp)
        self.alg = [a.subs(mp) for a in self.alg]
        self.u_expr = [e.subs(mp) for e in self.u_expr]


def rhs(ref, salt):
    """A right-hand side that mentions one variable of every class."""
    e = Poly.const(salt) + P(ref.t)
    for j, vec in enumerate((ref.x, ref.y, ref.u, ref.p, ref.theta)):
        for i, t in enumerate(vec[:3]):
            e = e + (salt + j + 2 * i) * P(t)
        if len(vec) > 1:
            e = e + P(vec[0]) * P(vec[-1])
    return e


# ---------------------------------------------------------------- alphabet
# Each operation: name -> (plan(ref) -> None | dict, effect(ref, plan), act(m, env, plan))
OPS = {}


def op(name):
    def deco(cls):
        OPS[name] = cls
        return cls

    return deco


def _create(vec_name, creator, size):
    class Op:
        @staticmethod
        def plan(ref):
            k = size if isinstance(size, int) else size[0] * size[1]
            return {"toks": ref.fresh(k)}

        @staticmethod
        def effect(ref, pl):
            getattr(ref, vec_name).extend(pl["toks"])
            if vec_name == "x":
                pl["x0"] = ref.fresh(len(pl["toks"]))
                ref.x0.extend(pl["x0"])
                for t in pl["toks"]:
                    ref.ode[t] = None
            if vec_name == "u":
                ref.u_par.extend(pl["toks"])
                ref.u_expr.extend(P(t) for t in pl["toks"])

        @staticmethod
        def act(m, env, pl):
            nm = env.one_name or "%s%d" % (vec_name, pl["toks"][0])
            v = getattr(m, creator)(nm, size)
            shape = (size, 1) if isinstance(size, int) else size
            require(tuple(v.shape) == tuple(shape), "create-shape", "%s(%r) returned shape %s" % (creator, size, v.shape))
            env.bind_vec(pl["toks"], v)
            if vec_name == "x":
                env.bind_vec(pl["x0"], m.x_0[-len(pl["x0"]):])

    return Op


for _v, _c in (("x", "create_state"), ("y", "create_algebraic_variable"), ("u", "create_control"),
               ("p", "create_parameter"), ("theta", "create_theta")):
    for _s in (1, 2, (2, 2), 12):
        OPS["create_%s_%s" % (_v, _s if isinstance(_s, int) else "2x2")] = _create(_v, _c, _s)
OPS["create_input_1"] = _create("u", "create_input", 1)


def _include(vec_name, how):
    """include_* with a variable created outside, with and without extras."""

    class Op:
        @staticmethod
        def plan(ref):
            k = 2
            pl = {"toks": ref.fresh(k)}
            if "eq" in how:
                r2 = ref.copy()
                getattr(r2, vec_name).extend(pl["toks"])
                pl["eqs"] = [rhs(r2, 3 + i) for i in range(k)]
            return pl

        @staticmethod
        def effect(ref, pl):
            getattr(ref, vec_name).extend(pl["toks"])
            if vec_name == "x":
                pl["x0"] = ref.fresh(2)
                ref.x0.extend(pl["x0"])
                for i, t in enumerate(pl["toks"]):
                    ref.ode[t] = pl["eqs"][i] if "eqs" in pl else None
            if vec_name == "y" and "eqs" in pl:
                ref.alg.extend(pl["eqs"])
            if vec_name == "u":
                ref.u_par.extend(pl["toks"])
                ref.u_expr.extend(P(t) for t in pl["toks"])

        @staticmethod
        def act(m, env, pl):
            import casadi as ca

            v = ca.SX.sym(env.one_name or "%s%d" % (vec_name, pl["toks"][0]), 2)
            env.bind_vec(pl["toks"], v)
            eqs = env.sxs(pl["eqs"]) if "eqs" in pl else None
            if how == "vars":
                m.include_variables(**{vec_name: v})
            elif how == "varslist":
                m.include_variables(**{vec_name: [v[0], v[1]]})
            elif vec_name == "x":
                if "x0" in how:
                    s = ca.SX.sym("mine", 2)
                    env.bind_vec(pl["x0"], s)
                    r = m.include_state(v, ode=eqs, x_0=s)
                else:
                    r = m.include_state(v, ode=eqs)
                    env.bind_vec(pl["x0"], r)
                require(env.toks_of(r, "returned x_0") == pl["x0"], "returned-x_0", "")
            elif vec_name == "y":
                m.include_algebraic(v, eqs) if eqs is not None else m.include_algebraic(v)
            elif vec_name == "u":
                m.include_control(v)
            elif vec_name == "p":
                m.include_parameter(v)
            else:
                m.include_theta(v)
            if vec_name == "x" and how in ("vars", "varslist"):
                env.bind_vec(pl["x0"], m.x_0[-2:])

    return Op


for _v in ("x", "y", "u", "p", "theta"):
    for _h in ("plain", "vars", "varslist") + (("eq",) if _v in "xy" else ()) + (("x0", "eqx0") if _v == "x" else ()):
        OPS["include_%s_%s" % (_v, _h)] = _include(_v, _h)


def _pick(vec, which):
    if not vec:
        return None
    if which == "first":
        return [vec[0]]
    if which == "last":
        return [vec[-1]]
    if which == "mid":
        return [vec[len(vec) // 2]] if len(vec) >= 3 else None
    if which == "two":
        # two non-adjacent ones, in reverse order
        return [vec[-1], vec[0]] if len(vec) >= 3 else None
    if which == "all":
        return list(vec)


def _remove(vec_name, which, method):
    class Op:
        @staticmethod
        def plan(ref):
            vec = getattr(ref, vec_name)
            if vec_name == "u":
                vec = [t for t in vec if t not in ref.parametrized and t in ref.u_par]
            t = _pick(vec, which)
            return None if t is None else {"toks": t}

        @staticmethod
        def effect(ref, pl):
            ts = set(pl["toks"])
            if vec_name == "x":
                keep = [i for i, t in enumerate(ref.x) if t not in ts]
                ref.x0 = [ref.x0[i] for i in keep]
                ref.x = [ref.x[i] for i in keep]
                for t in ts:
                    del ref.ode[t]
            elif vec_name == "u":
                keep = [i for i, t in enumerate(ref.u) if t not in ts]
                ref.u_expr = [ref.u_expr[i] for i in keep]
                ref.u = [ref.u[i] for i in keep]
                ref.u_par = [t for t in ref.u_par if t not in ts]
            else:
                setattr(ref, vec_name, [t for t in getattr(ref, vec_name) if t not in ts])
            ref.gone += pl["toks"]

        @staticmethod
        def act(m, env, pl):
            getattr(m, method)(env.vec(pl["toks"]))

    return Op


for _v, _m in (("x", "remove_state"), ("y", "remove_algebraic"), ("u", "remove_control"),
               ("p", "remove_parameter"), ("theta", "remove_theta")):
    for _w in ("first", "mid", "last", "two", "all"):
        OPS["remove_%s_%s" % (_v, _w)] = _remove(_v, _w, _m)


@op("remove_y_with_eq")
class _RemoveYEq:
    """remove_algebraic(var, eq): drops the variable and the named equation."""

    @staticmethod
    def plan(ref):
        if not ref.y or not ref.alg:
            return None
        named = [i for i, e in enumerate(ref.alg) if e.key() != Poly.const(0).key()]
        return {"tok": ref.y[0], "i": named[-1]} if named else None

    @staticmethod
    def effect(ref, pl):
        ref.y.remove(pl["tok"])
        eq = ref.alg.pop(pl["i"])
        pl["eq"] = eq

    @staticmethod
    def act(m, env, pl):
        m.remove_algebraic(env.sym[pl["tok"]], m.alg[pl["i"]])


def sparse(exprs, polys):
    """The vector, with the entries whose polynomial is zero left out structurally (v = SX(n, 1); v[i] = ...)."""
    import casadi as ca

    v = ca.SX(len(exprs), 1)
    for i, (e, p) in enumerate(zip(exprs, polys)):
        if p.key() != Poly.const(0).key():
            v[i] = e
    return v


def _ode_eq(style, sel):
    class Op:
        @staticmethod
        def plan(ref):
            if sel == "guess":
                # documented: without x the equations belong to the states, in order;
                # only unambiguous when no state has an equation yet
                if not ref.x or any(ref.ode[t] is not None for t in ref.x):
                    return None
                xs = list(ref.x)
            elif sel == "guess-part":
                if len(ref.x) < 2 or any(ref.ode[t] is not None for t in ref.x):
                    return None
                xs = list(ref.x)[:-1]
            elif sel == "undef":
                xs = [t for t in ref.x if ref.ode[t] is None]
            elif sel == "undef-reversed":
                xs = [t for t in ref.x if ref.ode[t] is None][::-1]
                if len(xs) < 2:
                    return None
            elif sel == "first":
                xs = list(ref.x[:1])
            elif sel == "last":
                xs = list(ref.x[-1:]) if len(ref.x) > 1 else []
            if not xs:
                return None
            eqs = [rhs(ref, 2 + i) for i in range(len(xs))]
            if style == "sparse":
                eqs[0] = Poly.const(0)
            return {"xs": xs, "eqs": eqs}

        @staticmethod
        def effect(ref, pl):
            for t, e in zip(pl["xs"], pl["eqs"]):
                ref.ode[t] = e
            if style == "mixed":
                ref.alg.append(P(pl["xs"][0]) - pl["eqs"][0])

        @staticmethod
        def act(m, env, pl):
            from yaocptool.modelling import der

            sx = [env.sx(e) for e in pl["eqs"]]
            if style == "sparse":
                m.include_equations(ode=sparse(sx, pl["eqs"]), x=env.vec(pl["xs"]))
            elif sel.startswith("guess"):
                m.include_equations(ode=sx if style == "list" else env.sxs(pl["eqs"]))
            elif style == "list":
                m.include_equations(ode=sx, x=[env.sym[t] for t in pl["xs"]])
            elif style == "vec":
                m.include_equations(ode=env.sxs(pl["eqs"]), x=env.vec(pl["xs"]))
            elif style == "der":
                m.include_equations(*[der(env.sym[t]) == e for t, e in zip(pl["xs"], sx)])
            elif style == "dervec":
                m.include_equations(der(env.vec(pl["xs"])) == env.sxs(pl["eqs"]))
            elif style == "mixed":
                x0 = env.sym[pl["xs"][0]]
                m.include_equations(x0 == sx[0], *[der(env.sym[t]) == e for t, e in zip(pl["xs"], sx)])

    return Op


for _st, _se in (("list", "guess"), ("vec", "guess"), ("list", "guess-part"), ("list", "undef"), ("vec", "undef-reversed"),
                 ("der", "undef"), ("dervec", "undef"), ("der", "undef-reversed"), ("mixed", "undef-reversed"),
                 ("vec", "first"), ("list", "last"), ("der", "last"), ("mixed", "first"), ("sparse", "undef"),
                 ("sparse", "undef-reversed")):
    OPS["ode_%s_%s" % (_st, _se)] = _ode_eq(_st, _se)


@op("ode_ambiguous")
class _OdeAmbiguous:
    """Equations without states while an earlier state already has one: refused."""

    @staticmethod
    def plan(ref):
        if len(ref.x) < 2:
            return None
        first_none = next((i for i, t in enumerate(ref.x) if ref.ode[t] is None), None)
        if first_none in (None, 0):
            return None
        k = sum(ref.ode[t] is None for t in ref.x)
        return {"eqs": [rhs(ref, 2 + i) for i in range(k)]}

    @staticmethod
    def effect(ref, pl):
        pass

    @staticmethod
    def act(m, env, pl):
        refused(lambda: m.include_equations(ode=[env.sx(e) for e in pl["eqs"]]), "ambiguous ODE")


@op("ode_wrong_size")
class _OdeWrongSize:
    @staticmethod
    def plan(ref):
        if len(ref.x) < 2:
            return None
        return {"xs": ref.x[:2], "eq": rhs(ref, 5)}

    @staticmethod
    def effect(ref, pl):
        pass

    @staticmethod
    def act(m, env, pl):
        refused(lambda: m.include_equations(ode=[env.sx(pl["eq"])], x=env.vec(pl["xs"])), "one ODE for two states")


@op("include_x_again")
class _IncludeAgain:
    @staticmethod
    def plan(ref):
        if not ref.x:
            return None
        return {"tok": ref.x[-1]}

    @staticmethod
    def effect(ref, pl):
        pass

    @staticmethod
    def act(m, env, pl):
        refused(lambda: m.include_state(env.sym[pl["tok"]]), "a state included twice")


def refused(fn, what):
    try:
        fn()
    except Exception:
        return
    raise Disagreement("not-refused", what + " was accepted")


def _alg_eq(style):
    class Op:
        @staticmethod
        def plan(ref):
            if not (ref.y or ref.x):
                return None
            n = len(ref.alg)
            v = (ref.y + ref.x)[0]
            if style == "x0":
                # equations may refer to the initial conditions and to tau
                if not ref.x0:
                    return None
                return {"v": v, "eqs": [rhs(ref, 4 + n) - 3 * P(ref.x0[0]) + 2 * P(ref.tau), rhs(ref, 7 + n) + P(ref.x0[-1]) * P(ref.x[0])]}
            return {"v": v, "eqs": [rhs(ref, 4 + n) if style != "sparse" else Poly.const(0), rhs(ref, 7 + n)]}

        @staticmethod
        def effect(ref, pl):
            if style == "equality":
                ref.alg.extend([P(pl["v"]) - pl["eqs"][0], -1 * pl["eqs"][1]])
            else:
                ref.alg.extend(pl["eqs"])

        @staticmethod
        def act(m, env, pl):
            if style in ("list", "x0"):
                m.include_equations(alg=[env.sx(e) for e in pl["eqs"]])
            elif style == "vec":
                m.include_equations(alg=env.sxs(pl["eqs"]))
            elif style == "sparse":
                m.include_equations(alg=sparse([env.sx(e) for e in pl["eqs"]], pl["eqs"]))
            elif style == "equality":
                import casadi as ca

                m.include_equations(env.sym[pl["v"]] == env.sx(pl["eqs"][0]), ca.SX(0) == env.sx(pl["eqs"][1]))

    return Op


for _st in ("list", "vec", "equality", "sparse", "x0"):
    OPS["alg_" + _st] = _alg_eq(_st)


def _replace(kind):
    class Op:
        @staticmethod
        def plan(ref):
            if kind == "p_const":
                if not ref.p:
                    return None
                return {"mp": {ref.p[0]: Poly.const(7)}}
            if kind == "swap":
                # simultaneous: two variables exchange places
                vs = (ref.x + ref.y + ref.u + ref.p)
                if len(vs) < 2:
                    return None
                a, b = vs[0], vs[-1]
                return {"mp": {a: P(b), b: P(a)}}
            if kind == "sparse":
                # several variables at once, the first one replaced by a structural zero
                vs = (ref.x + ref.y + ref.u + ref.p)
                if len(vs) < 2:
                    return None
                return {"mp": {vs[-1]: Poly.const(0), vs[0]: P(ref.t) + 2}}
            if kind == "time":
                return {"mp": {ref.t: 2 * P(ref.tau) + 1}}
            if kind == "any_expr":
                vs = (ref.u + ref.y + ref.x + ref.p + ref.theta)
                if len(vs) < 2:
                    return None
                return {"mp": {vs[0]: 3 * P(vs[-1]) + P(ref.t)}}
            if kind == "foreign":
                # not in the model: nothing changes
                t = ref.fresh(1)[0]
                return {"mp": {t: Poly.const(1)}, "new": t}

        @staticmethod
        def effect(ref, pl):
            ref.subst(pl["mp"])

        @staticmethod
        def act(m, env, pl):
            import casadi as ca

            if "new" in pl:
                env.bind(pl["new"], ca.SX.sym(env.one_name or "foreign"))
            ks = list(pl["mp"])
            vals = [pl["mp"][k] for k in ks]
            m.replace_variable(env.vec(ks), sparse([env.sx(v) for v in vals], vals) if kind == "sparse" else env.sxs(vals))

    return Op


for _k in ("p_const", "swap", "time", "any_expr", "foreign", "sparse"):
    OPS["replace_" + _k] = _replace(_k)


@op("replace_bad_size")
class _ReplaceBad:
    @staticmethod
    def plan(ref):
        vs = ref.x + ref.y + ref.u
        return {"v": vs[0]} if vs else None

    @staticmethod
    def effect(ref, pl):
        pass

    @staticmethod
    def act(m, env, pl):
        import casadi as ca

        refused(lambda: m.replace_variable(env.sym[pl["v"]], ca.SX([1, 2])), "replacement of another size")


def _parametrize(kind):
    class Op:
        @staticmethod
        def plan(ref):
            free = [t for t in ref.u if t not in ref.parametrized and t in ref.u_par]
            if kind == "again":
                done = [t for t in ref.u if t in ref.parametrized]
                return {"us": [done[0]], "refuse": True} if done else None
            if kind == "again-mixed":
                done = [t for t in ref.u if t in ref.parametrized]
                return {"us": [free[0], done[0]], "refuse": True} if done and free else None
            if kind == "feedback":
                if not free or not ref.x:
                    return None
                return {"us": [free[0]], "ex": [2 * P(ref.x[0]) + 1], "par": []}
            if kind == "affine":
                if not free:
                    return None
                a, b = ref.fresh(2)
                return {"us": [free[-1]], "ex": [P(a) + P(b) * P(ref.tau)], "par": [a, b]}
            if kind == "sparse":
                if len(free) < 2 or not ref.x:
                    return None
                return {"us": [free[0], free[-1]], "ex": [Poly.const(0), P(ref.x[-1]) + 1], "par": []}
            if kind == "two":
                if len(free) < 2:
                    return None
                a, b = ref.fresh(2)
                return {"us": [free[-1], free[0]], "ex": [P(a) * P(ref.t), P(b) + P(ref.tau)], "par": [a, b]}

        @staticmethod
        def effect(ref, pl):
            if pl.get("refuse"):
                return
            ref.u_par = [t for t in ref.u_par if t not in pl["us"]] + pl["par"]
            ref.parametrized |= set(pl["us"])
            ref.subst(dict(zip(pl["us"], pl["ex"])))

        @staticmethod
        def act(m, env, pl):
            import casadi as ca

            us = env.vec(pl["us"])
            if pl.get("refuse"):
                refused(lambda: m.parametrize_control(us, ca.SX(us.numel(), 1)), "a control parametrised twice")
                return
            for t in pl["par"]:
                env.bind(t, ca.SX.sym(env.one_name or "par%d" % t))
            if pl["par"]:
                m.parametrize_control(us, env.sxs(pl["ex"]), env.vec(pl["par"]))
            elif kind == "sparse":
                m.parametrize_control(us, sparse([env.sx(e) for e in pl["ex"]], pl["ex"]))
            else:
                m.parametrize_control(us, env.sxs(pl["ex"]))

    return Op


for _k in ("feedback", "affine", "two", "again", "again-mixed", "sparse"):
    OPS["parametrize_" + _k] = _parametrize(_k)


@op("parametrize_bad_size")
class _ParBad:
    @staticmethod
    def plan(ref):
        free = [t for t in ref.u if t not in ref.parametrized]
        return {"u": free[0]} if free else None

    @staticmethod
    def effect(ref, pl):
        pass

    @staticmethod
    def act(m, env, pl):
        import casadi as ca

        refused(lambda: m.parametrize_control(env.sym[pl["u"]], ca.SX([1, 2])), "a parametrisation of another size")


def _connect(kind):
    class Op:
        @staticmethod
        def plan(ref):
            free = [t for t in ref.u if t not in ref.parametrized and t in ref.u_par]
            if kind.endswith("2"):
                if len(free) < 2 or len(ref.y) < 2:
                    return None
                return {"u": [free[-1], free[0]], "y": [ref.y[0], ref.y[-1]]}
            if not free or not ref.y:
                return None
            return {"u": [free[0]], "y": [ref.y[-1]]}

        @staticmethod
        def effect(ref, pl):
            if kind.startswith("replace"):
                ref.subst({a: P(b) for a, b in zip(pl["u"], pl["y"])})
            else:
                ref.alg += [P(a) - P(b) for a, b in zip(pl["u"], pl["y"])]
                ref.y = ref.y + pl["u"]
            keep = [i for i, t in enumerate(ref.u) if t not in pl["u"]]
            ref.u_expr = [ref.u_expr[i] for i in keep]
            ref.u = [ref.u[i] for i in keep]
            ref.u_par = [t for t in ref.u_par if t not in pl["u"]]

        @staticmethod
        def act(m, env, pl):
            u, y = env.vec(pl["u"]), env.vec(pl["y"])
            if kind.startswith("replace"):
                m.connect(u, y, replace=True)
            else:
                m.connect(u, y)

    return Op


for _k in ("plain", "plain2", "replace", "replace2"):
    OPS["connect_" + _k] = _connect(_k)


# ---------------------------------------------------------------- running
def step(ref, name):
    """Apply operation `name` to ref; returns (plan) or None if not enabled."""
    pl = OPS[name].plan(ref)
    if pl is None:
        return None
    OPS[name].effect(ref, pl)
    return pl


def sequences(alphabet, depth, prefix=(), start=None):
    """All maximal enabled operation sequences (length `depth`, or blocked)."""
    out = []

    def rec(ref, seq):
        if len(seq) == depth:
            out.append(tuple(prefix) + tuple(seq))
            return
        any_ = False
        for name in alphabet:
            r2 = ref.copy()
            if step(r2, name) is None:
                continue
            any_ = True
            rec(r2, seq + [name])
        if not any_:
            out.append(tuple(prefix) + tuple(seq))

    ref = Ref()
    for name in prefix:
        if step(ref, name) is None:
            raise ValueError("prefix operation %s not enabled" % name)
    rec(ref, [])
    return out


def names_ok(m, env, ref):
    for vec_name in ("x", "y", "u", "p", "theta"):
        toks = getattr(ref, vec_name)
        names = getattr(m, vec_name + "_names")
        require(list(names) == [env.sym[t].name() for t in toks], "names:" + vec_name, "%s" % (names,))


def observe(m, env, ref):
    """The complete observable state of the model equals the reference's."""
    for vec_name in ("x", "y", "u", "u_par", "p", "theta"):
        got = env.toks_of(getattr(m, vec_name), vec_name)
        exp = getattr(ref, vec_name)
        require(got == exp, "vector:" + vec_name, lambda: "%s holds %s, expected %s" % (vec_name, got, exp))
        require(getattr(m, "n_" + vec_name) == len(exp), "count:n_" + vec_name, "n_%s=%s" % (vec_name, getattr(m, "n_" + vec_name)))
    got = env.toks_of(m.x_0, "x_0")
    require(got == ref.x0, "vector:x_0", lambda: "x_0 holds %s, expected %s" % (got, ref.x0))
    names_ok(m, env, ref)
    odes = [ref.ode[t] for t in ref.x if ref.ode[t] is not None]
    compare(env, m.ode, odes, "ode")
    compare(env, m.alg, ref.alg, "alg")
    compare(env, m.u_expr, ref.u_expr, "u_expr")
    for t in ref.u:
        require(bool(m.control_is_parametrized(env.sym[t])) == (t in ref.parametrized),
                "control_is_parametrized", "%s" % env.sym[t])
    require(m.system_type == ("dae" if ref.y else "ode"), "system_type", m.system_type)


def observe_dae(m, env, ref):
    """get_dae_system hands over the same system, parameters ordered [p; theta; u_par]."""
    dae = m.get_dae_system()
    require(env.toks_of(dae.x, "dae.x") == ref.x, "dae.x", "")
    compare(env, dae.ode, [ref.ode[t] for t in ref.x if ref.ode[t] is not None], "dae.ode")
    if ref.y:
        require(env.toks_of(dae.y, "dae.y") == ref.y, "dae.y", "")
        compare(env, dae.alg, ref.alg, "dae.alg")
    else:
        require(dae.y.numel() == 0, "dae.y", "")
    require(env.toks_of(dae.p, "dae.p") == ref.p + ref.theta + ref.u_par, "dae.p-order", "%s" % dae.p)
    require(env.toks_of(dae.t, "dae.t") == [ref.t] and env.toks_of(dae.tau, "dae.tau") == [ref.tau], "dae.t", "")


def new_model(env, ref, **kw):
    from yaocptool.modelling import SystemModel

    m = SystemModel(**kw)
    env.bind(ref.t, m.t)
    env.bind(ref.tau, m.tau)
    return m


def build_model(seq, base=0, env=None, **kw):
    """Build a model through the API, without looking at it."""
    env = Env() if env is None else env
    ref = Ref(base)
    m = new_model(env, ref, **kw)
    for name in seq:
        pl = step(ref, name)
        if pl is None:
            raise ValueError("operation not enabled: %s" % name)
        OPS[name].act(m, env, pl)
    return m, env, ref


def run_history(seq, tr, dae=False, model_kw=None, check_each=True, one_name=None):
    env = Env()
    env.one_name = one_name
    ref = Ref()
    m = new_model(env, ref, **(model_kw or {}))
    tr.state(ref.key())
    for i, name in enumerate(seq):
        pl = step(ref, name)
        if pl is None:
            raise ValueError("operation not enabled in replay: %s" % name)
        try:
            OPS[name].act(m, env, pl)
            if check_each or i == len(seq) - 1:
                observe(m, env, ref)
                if dae:
                    observe_dae(m, env, ref)
        except Disagreement as e:
            raise Disagreement(e.key, "after %s: %s" % (list(seq[: i + 1]), e.msg))
        tr.step()
        tr.state(ref.key())
    return m, env, ref


def _remove_missing(vec_name, method):
    class Op:
        @staticmethod
        def plan(ref):
            return {"t": ref.fresh(1)[0]} if getattr(ref, vec_name) else None

        @staticmethod
        def effect(ref, pl):
            pass

        @staticmethod
        def act(m, env, pl):
            import casadi as ca

            env.bind(pl["t"], ca.SX.sym(env.one_name or vec_name + "_missing"))
            refused(lambda: getattr(m, method)(env.sym[pl["t"]]), "removal of a variable that is not there")

    return Op


for _v, _m in (("x", "remove_state"), ("y", "remove_algebraic"), ("u", "remove_control"),
               ("p", "remove_parameter"), ("theta", "remove_theta")):
    OPS["remove_%s_missing" % _v] = _remove_missing(_v, _m)
