"""C04: copies of a model are equal to it and independent of it."""
import itertools

from . import core, model_ref as mr
from .core import Disagreement, require
from .sym import Env

BASES = [
    (),
    ("create_x_2", "ode_list_guess"),
    ("create_x_1", "create_u_2", "create_p_1", "ode_der_undef", "parametrize_affine"),
    ("create_x_2", "create_y_2", "create_u_2", "create_p_2", "create_theta_2", "ode_list_guess", "alg_list"),
    ("create_x_2", "create_u_1", "create_y_1", "ode_vec_first", "alg_equality", "parametrize_feedback"),
    ("create_u_2", "create_theta_1", "create_x_2", "ode_list_last", "parametrize_two", "create_u_1"),
    ("include_x_eqx0", "include_y_eq", "create_u_1", "connect_plain", "replace_time"),
    ("create_x_2", "create_y_2", "create_p_1", "ode_list_guess", "alg_x0"),
    ("create_x_12", "create_y_12", "create_u_12", "create_p_12", "create_theta_12", "ode_list_guess", "alg_list"),
]
OPS = ["create_x_1", "remove_x_first", "include_x_eq", "ode_vec_first", "ode_der_last", "create_y_1", "remove_y_first", "alg_list",
       "create_u_1", "remove_u_first", "parametrize_affine", "connect_plain", "connect_replace", "create_p_1", "remove_p_first",
       "create_theta_1", "remove_theta_first", "replace_swap", "replace_any_expr"]


def gen(depth, kinds):
    out, keep = [], []
    full = depth
    for b in range(len(BASES)):
        depth = min(full, 1) if any(n.endswith("_12") for n in BASES[b]) else full
        for kind in kinds:
            def rec(refs, seq):
                out.append((b, kind, tuple(seq)))
                if len(seq) == depth:
                    keep.append(out[-1])
                    return
                for side in (0, 1):
                    for name in OPS:
                        r2 = [r.copy() for r in refs]
                        if mr.step(r2[side], name) is not None:
                            rec(r2, seq + [(side, name)])
            ref = mr.Ref()
            for n in BASES[b]:
                mr.step(ref, n)
            r2 = ref.copy()
            rec([ref, r2], [])
    # keep maximal sequences only (prefixes are checked on the way)
    return keep


def make_copy(kind, m, env, ref):
    if kind == "copy":
        c = m.get_copy()
        env2, ref2 = Env(), ref.copy()
        env2.sym, env2.tok, env2.one_name = dict(env.sym), dict(env.tok), env.one_name
        ref2.n += 1000
    else:
        c = m.get_deepcopy()
        env2, ref2 = Env(), ref.copy()
        ref2.n += 1000
        env2.bind(ref2.t, c.t)
        env2.bind(ref2.tau, c.tau)
        for toks, vec in ((ref2.x, c.x), (ref2.x0, c.x_0), (ref2.y, c.y), (ref2.u, c.u), (ref2.p, c.p),
                          (ref2.theta, c.theta), (ref2.u_par, c.u_par)):
            env2.bind_vec(toks, vec)
        env2.one_name = env.one_name
        shared = set(env2.tok) & set(env.tok)
        require(not shared, "deepcopy-shares-symbols", "%s" % [env2.sym[env2.tok[h]] for h in shared])
        for nm in ("x", "y", "u", "p", "theta"):
            require(getattr(c, nm + "_names") == getattr(m, nm + "_names"), "deepcopy-names", "")
    require(c is not m, "same-object", "")
    require(c.name == m.name and c.model_name_as_prefix == m.model_name_as_prefix
            and c.has_adjoint_variables == m.has_adjoint_variables, "copy-attributes", "")
    return c, env2, ref2


def run(sc, tr, model_kw=None, one_name=None):
    b, kind, seq = sc
    env = mr.Env()
    env.one_name = one_name
    m, env, ref = mr.build_model(BASES[b], env=env, **(model_kw or {}))
    mr.observe(m, env, ref)
    c, env2, ref2 = make_copy(kind, m, env, ref)
    tr.step()
    sides = [(m, env, ref), (c, env2, ref2)]

    def look(when):
        for i, (mm, ee, rr) in enumerate(sides):
            try:
                mr.observe(mm, ee, rr)
                mr.observe_dae(mm, ee, rr)
            except Disagreement as e:
                raise Disagreement(e.key + ":" + ("original", "copy")[i], "%s: %s" % (when, e.msg))
        tr.state((b, kind, ref.key(), ref2.key()))

    look("right after the copy")
    for i, (side, name) in enumerate(seq):
        mm, ee, rr = sides[side]
        pl = mr.step(rr, name)
        mr.OPS[name].act(mm, ee, pl)
        tr.step()
        look("after %s" % (seq[: i + 1],))


def run_include(sc, tr):
    """Including other models (their parametrised controls with them) in one of them leaves the other alone."""
    from . import c05

    b, kind, side, sub, how = sc
    m, env, ref = mr.build_model(BASES[b])
    c, env2, ref2 = make_copy(kind, m, env, ref)
    sides = [(m, env, ref), (c, env2, ref2)]
    mm, ee, rr = sides[side]
    s, _, rs = mr.build_model(c05.LIB[sub], base=5000, env=ee)
    mm.include_models(s) if how == "include" else mm.merge([s])
    c05.absorb(rr, rs)
    tr.step()
    o = sides[1 - side]
    for t, v in list(zip(rs.u, [s.u[i] for i in range(s.n_u)])):
        require(not o[0].control_is_parametrized(v), "other-side:control_is_parametrized", lambda: "%s of the model included in the %s" % (v, ("original", "copy")[side]))
    require(bool(o[0].is_parametrized()) == bool(o[2].parametrized), "other-side:is_parametrized", "")
    for mm, ee, rr in sides + [(s, ee, rs)]:
        mr.observe(mm, ee, rr)
        mr.observe_dae(mm, ee, rr)
    tr.state((sc, ref.key(), ref2.key()))


def run_prefixed(sc, tr):
    run(sc, tr, {"name": "tank", "model_name_as_prefix": True})


def run_same(sc, tr):
    run(sc, tr, one_name="v")


def run_chain(sc, tr):
    """A copy of a copy, in any order of kinds; all three stay equal and independent."""
    b, kinds, op_a, op_b = sc
    m, env, ref = mr.build_model(BASES[b])
    trip = [(m, env, ref)]
    for k in kinds:
        mm, ee, rr = trip[-1]
        trip.append(make_copy(k, mm, ee, rr))
    for side, name in ((0, op_a), (2, op_b), (1, op_a)):
        mm, ee, rr = trip[side]
        pl = mr.step(rr, name)
        if pl is None:
            continue
        mr.OPS[name].act(mm, ee, pl)
        tr.step()
        for mm, ee, rr in trip:
            mr.observe(mm, ee, rr)
        tr.state((b, kinds, tuple(r.key() for _, _, r in trip)))


OCP_OPS = ["create_state", "create_algebraic", "create_control", "create_parameter", "create_theta", "opt_par", "opt_theta",
           "parametrize", "connect", "replace", "cost_state", "adjoint", "time_eq", "time_ineq", "quadratic", "remove_control",
           "remove_algebraic", "equations"]


def run_ocp(sc, tr):
    """Working on an OptimalControlProblem never changes the model it was given, nor another problem on it."""
    b, seq = sc
    import casadi as ca
    from yaocptool.modelling import OptimalControlProblem

    m, env, ref = mr.build_model(BASES[b])
    a = OptimalControlProblem(m, x_0=ca.DM.zeros(m.n_x))
    o = OptimalControlProblem(m, x_0=ca.DM.zeros(m.n_x))
    attrs = ["x_max", "x_min", "y_max", "y_min", "u_max", "u_min", "delta_u_max", "delta_u_min", "p_opt", "theta_opt",
             "h", "h_initial", "h_final", "g_eq", "g_ineq", "time_g_eq", "time_g_ineq", "L", "V", "S", "x_0", "eta"]

    def snap(p):
        return [str(getattr(p, k)) for k in attrs]

    before = snap(o)
    for i, name in enumerate(seq):
        mod = a.model
        if name == "create_state":
            v = a.create_state("ox", ode=None, x_0=ca.DM([1]))
            mod.include_equations(ode=[mod.t], x=v)
        elif name == "create_algebraic":
            a.create_algebraic("oy", alg=mod.t)
        elif name == "create_control":
            a.create_control("ou")
        elif name == "create_parameter":
            a.create_parameter("op")
        elif name == "create_theta":
            a.create_theta("oth")
        elif name == "opt_par":
            a.create_optimization_parameter("opo")
        elif name == "opt_theta":
            a.create_optimization_theta("oto")
        elif name == "parametrize":
            free = [mod.u[j] for j in range(mod.n_u) if not mod.control_is_parametrized(mod.u[j])]
            if not free:
                continue
            k = ca.SX.sym("k")
            a.parametrize_control(free[0], k * mod.t, k)
        elif name == "connect":
            free = [mod.u[j] for j in range(mod.n_u) if not mod.control_is_parametrized(mod.u[j])]
            if not free or not mod.n_y:
                continue
            a.connect(free[0], mod.y[0])
        elif name == "replace":
            if not mod.n_x:
                continue
            a.replace_variable(mod.x[0], mod.x[0] + mod.t)
        elif name == "cost_state":
            a.create_cost_state()
        elif name == "adjoint":
            if not mod.n_x or mod.has_adjoint_variables or mod.ode.numel() != mod.n_x or mod.alg.numel() != mod.n_y:
                continue
            a.create_adjoint_states()
        elif name == "time_eq":
            a.include_time_equality(mod.t - 1, when="end")
        elif name == "time_ineq":
            a.include_time_inequality(mod.t - 1)
        elif name == "quadratic":
            a.create_quadratic_cost({"Q": ca.DM.eye(mod.n_x), "R": ca.DM.eye(mod.n_u)})
        elif name == "remove_control":
            free = [mod.u[j] for j in range(mod.n_u) if not mod.control_is_parametrized(mod.u[j])]
            if not free:
                continue
            a.remove_control(free[-1])
        elif name == "remove_algebraic":
            if not mod.n_y:
                continue
            a.remove_algebraic(mod.y[-1])
        elif name == "equations":
            mod.include_equations(alg=[mod.t * 3])
        tr.step()
        for who, mm in (("the user's model", m), ("another problem's model", o.model)):
            try:
                mr.observe(mm, env, ref)
                require(not mm.has_adjoint_variables, "adjoint-flag", "")
            except Disagreement as e:
                raise Disagreement("ocp-leaks:" + e.key, "%s changed after %s: %s" % (who, seq[: i + 1], e.msg))
        require(snap(o) == before, "ocp-leaks-problem", lambda: "another problem changed after %s" % (seq[: i + 1],))
        tr.state((b, seq[: i + 1]))
    for prob in (o, a, o):
        prob.reset_working_model()
        mr.observe(prob.model, env, ref)
        v = prob.model.create_state("after")
        prob.model.include_equations(ode=[v], x=v)
        if prob.model.n_u:
            prob.model.create_control("after_u")
        tr.step()
        mr.observe(m, env, ref)


def build(tier):
    import yaocptool.modelling  # noqa: F401
    from . import c05

    d = 2 if tier == "quick" else 3
    chain = [(b, k, x, y) for b in range(len(BASES)) for k in itertools.product(("copy", "deepcopy"), repeat=2)
             for x in OPS for y in OPS if tier == "thorough" or OPS.index(x) <= OPS.index(y)]
    ocp = [(b, s) for b in range(len(BASES)) for s in itertools.product(OCP_OPS, repeat=2 if tier == "quick" else 3)]
    return [
        core.Suite("interleaved", gen(d, ("copy", "deepcopy")), run),
        core.Suite("prefixed", gen(1, ("copy", "deepcopy")), run_prefixed),
        core.Suite("same-name", gen(1, ("copy", "deepcopy")), run_same),
        core.Suite("include", [(b, k, s, i, h) for b in range(len(BASES)) for k in ("copy", "deepcopy") for s in (0, 1) for i in range(len(c05.LIB)) for h in ("include", "merge")], run_include),
        core.Suite("chain", chain, run_chain),
        core.Suite("ocp", ocp, run_ocp),
    ]


if __name__ == "__main__":
    core.main(
        "C04", build,
        {"quick": "9 base models x {copy, deep copy} x all interleavings of 2 operations (19-operation alphabet) on original and copy; copies of copies; copies of models whose variables share one name; every library model included in either side; all sequences of 2 problem operations (18) on 9 models",
         "thorough": "the same with interleavings / sequences of 3"},
        ["expressions are compared by evaluation at two generic points"],
    )
