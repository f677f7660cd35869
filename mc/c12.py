"""C12: costs and constraints keep their meaning while the problem is edited."""
from . import core, ocp_ref as orf

BUILD = ["costs", "eq_default", "eq_end2", "ineq_start", "ineq_default2", "h_initial", "h_final2", "h_plain", "quad_all", "quad_QR", "quad_xref", "eq_sparse", "ineq_sparse"]
EDIT = ["replace_p_const", "replace_swap", "replace_any_expr", "replace_time", "parametrize_feedback", "parametrize_affine", "parametrize_two", "parametrize_again",
        "connect_plain", "connect_replace", "connect_replace2", "merge_full", "merge_guessed", "merge_ode", "merge_bare", "merge_2", "merge_2b", "merge_3", "merge_0", "cost_state", "positive", "adjoint", "state_include2_h_b",
        "remove_y_eq", "refuse_replace_size", "merge_other_horizon"]
ALLC = ("costs", "eq_default", "eq_end2", "ineq_start", "ineq_default2", "h_initial", "h_final2", "h_plain")


def run(sc, tr):
    orf.run(sc, tr, [orf.observe_meaning])


def run_obj(keys, tr):
    """The quadratic cost given when the problem is made."""
    import casadi as ca
    from yaocptool.modelling import OptimalControlProblem, SystemModel

    m = SystemModel("m")
    x, u = m.create_state("x", 2), m.create_control("u", 2)
    m.include_equations(ode=-x + u)
    d = {"Q": [[1, 2], [3, 5]], "R": [[2, 0.5], [0.25, 1]], "Qv": [[3, 1], [0, 2]], "Rv": [[0.5, 0], [1, 4]], "x_ref": [1, -2], "u_ref": [0.5, 3]}
    d = {k: d[k] for k in keys}
    o = OptimalControlProblem(m, x_0=ca.DM([1, 2]), t_f=2.0, obj={k: ca.DM(v) for k, v in d.items()})
    X, U = [0.7, -1.3], [2.1, 0.4]
    xr, ur = d.get("x_ref", [0, 0]), d.get("u_ref", [0, 0])
    q = lambda v, M: sum(v[i] * M[i][j] * v[j] for i in range(2) for j in range(2))  # noqa: E731
    dx, du = [a - b for a, b in zip(X, xr)], [a - b for a, b in zip(U, ur)]
    L = (q(dx, d["Q"]) if "Q" in d else 0) + (q(du, d["R"]) if "R" in d else 0)
    V = (q(dx, d["Qv"]) if "Qv" in d else 0) + (q(X, d["Rv"]) if "Rv" in d else 0)
    got = [float(v) for v in ca.Function("f", [o.model.x, o.model.u], [ca.SX(o.L), ca.SX(o.V)])(X, U)]
    orf.require(abs(got[0] - L) < 1e-9 and abs(got[1] - V) < 1e-9, "obj", lambda: "%s: L, V = %s, expected %s %s" % (keys, got, L, V))
    o.pre_solve_check()
    tr.step()
    tr.state(keys)


def build(tier):
    import yaocptool.modelling  # noqa: F401

    th = tier == "thorough"
    sc = orf.sequences("rich", BUILD + EDIT, 3 if th else 2)
    sc += orf.sequences("empty", BUILD + EDIT + ["state_create2_x0_b", "alg_create2_bg", "ctl_include2_g"], 3 if th else 2)
    few = [e for e in EDIT if not e.startswith("merge_") or e in ("merge_full", "merge_guessed", "merge_ode", "merge_bare", "merge_other_horizon")]
    sc += orf.sequences("rich", few, 4 if th else 3, ALLC) + orf.sequences("rich", EDIT, 2, ALLC)
    sc += orf.sequences("rich", EDIT, 2 if th else 1, ("costs_const",)) + orf.sequences("empty", EDIT, 2, ("costs_const",))
    sc += [(b, pre + (q,) + post) for b, pre in (("rich", ()), ("rich", ("costs",)), ("rich", ("state_create2_x0_b", "ctl_include2_g")), ("empty", ("state_create2_x0_b", "ctl_include2_g")))
           for q in orf.QUADS for post in (((), ("quad_QR",), ("merge_full",), ("replace_any_expr",)) if th else ((), ("quad_QR",)))]
    sc += orf.sequences("wide", BUILD + EDIT, 1) + orf.sequences("wide", EDIT, 2 if th else 1, ALLC)
    sc += [(b + "~", s) for b, s in orf.sequences("rich", BUILD + EDIT, 1) + orf.sequences("rich", EDIT, 2 if th else 1, ALLC)]
    import itertools

    obj = [k for n in range(7) for k in itertools.combinations(("Q", "R", "Qv", "Rv", "x_ref", "u_ref"), n)]
    return [core.Suite("histories", sc, run), core.Suite("cost-when-made", obj, run_obj)]


if __name__ == "__main__":
    core.main("C12", build,
              {"quick": "all enabled sequences of 2 operations over a 39-operation cost/constraint/edit alphabet on two problems; all sequences of 3 edits (21; of 2 over 25) on a problem with every cost and constraint kind, of 1 on one with constant costs; every selection of the entries of a quadratic cost on 4 problems; single operations on a problem with vectors of 12 and on one with one name for every variable; every quadratic cost given when the problem is made",
               "thorough": "3; 4"})
