"""C11: bounds, guesses and initial values of a problem stay with their own variables."""
from . import core, ocp_ref as orf

ALPHA = ["state_create2_x0_b", "state_include1_x0", "state_include2_h_b", "state_include1_suppress",
         "alg_create2_bg", "alg_include1", "alg_include2_b", "ctl_create2_scalar", "ctl_include2_g", "ctl_include1", "ctl_create1_bg",
         "p_create2", "p_opt_create2_b", "p_opt_include1", "p_opt_set_b", "th_create2", "th_opt_create2_b", "th_opt_include1_b", "th_opt_set",
         "remove_y_first", "remove_y_mid", "remove_y_last", "remove_y_two", "remove_y_eq", "remove_u_first", "remove_u_mid", "remove_u_last", "remove_u_two",
         "connect_plain", "connect_plain2", "connect_replace", "last_u", "merge_full", "merge_guessed", "merge_ode", "merge_bare", "merge_2", "merge_2b", "merge_3", "merge_0", "cost_state", "positive", "parametrize_feedback", "parametrize_affine"]
YU = ["alg_create2_bg", "alg_include1", "ctl_include2_g", "ctl_create1_bg", "remove_y_first", "remove_y_two", "remove_u_first", "remove_u_mid", "remove_u_two",
      "connect_plain", "connect_plain2", "connect_replace2", "last_u", "merge_guessed", "merge_bare", "parametrize_feedback", "parametrize_affine"]


def run(sc, tr):
    orf.run(sc, tr, [orf.observe_vectors])


SIZES = {"x_0": 3, "x_min": 3, "x_max": 3, "y_min": 2, "y_max": 2, "u_min": 3, "u_max": 3, "delta_u_min": 3, "delta_u_max": 3,
         "p_opt_min": 2, "p_opt_max": 2, "theta_opt_min": 2, "theta_opt_max": 2, "L": 1, "V": 1}


def run_check(sc, tr):
    """The pre-solve check accepts exactly the problems whose vectors have one entry per variable and whose costs are scalar."""
    import casadi as ca
    from yaocptool.modelling import OptimalControlProblem, SystemModel

    attr, n, form, solve = sc
    m = SystemModel("m")
    x, y, u = m.create_state("x", 3), m.create_algebraic_variable("y", 2), m.create_control("u", 3)
    m.include_equations(ode=-x + u, alg=y - x[:2])
    o = OptimalControlProblem(m, x_0=ca.DM([1, 2, 3]), t_f=1.0)
    o.create_optimization_parameter("q", 2)
    o.create_optimization_theta("h", 2)
    o.pre_solve_check()
    val = [0.5] * n if form == "list" else ca.DM([0.5] * n) if attr not in ("L", "V") else ca.vertcat(*[x[0] * u[0]] * n) if n else ca.SX(0, 1)
    setattr(o, attr, val)
    try:
        if solve:
            o.simulate(u=[0, 0, 0], p=[0, 0], theta={0: ca.DM([0, 0])})
        else:
            o.pre_solve_check()
        ok = True
    except Exception:
        ok = False
    tr.step()
    orf.require(ok == (n == SIZES[attr]), "pre_solve_check:size", lambda: "%s of size %d (%s) was %s" % (attr, n, form, "accepted" if ok else "refused"))
    tr.state(sc)


def build(tier):
    import yaocptool.modelling  # noqa: F401

    th = tier == "thorough"
    sc = orf.sequences("empty", ALPHA, 4 if th else 3)
    sc += orf.sequences("rich", ALPHA, 3 if th else 2) + orf.sequences("wide", ALPHA, 2 if th else 1) + orf.sequences("wide", YU, 2)
    for base in ("empty", "rich"):
        sc += orf.sequences(base, ["cost_state"], 1, ("null_obj",)) + orf.sequences(base, ["cost_state"], 1, ("null_obj", "positive"))
    sc += [(b + "~", s) for b, s in orf.sequences("empty", ALPHA, 2) + orf.sequences("rich", ALPHA, 1) + orf.sequences("rich", YU, 2)]
    deep = orf.sequences("empty", YU, 5 if th else 4, ("ctl_include2_g",)) + orf.sequences("rich", YU, 4 if th else 3)
    ref = []
    for k in orf.REFUSALS:
        for pre in ((), ("p_create2", "ctl_create2_scalar", "alg_include2_b"), ("ctl_include2_g", "state_create2_x0_b", "alg_create2_bg", "p_opt_create2_b")):
            for base in ("empty", "rich"):
                try:
                    ref += orf.sequences(base, ["refuse_" + k], 1, pre)
                except ValueError:
                    pass
        ref += orf.sequences("rich", ["refuse_" + k], 1, ("merge_guessed",))
    ref += orf.sequences("rich", ["merge_other_horizon"], 1)
    chk = [(a, k, f, s) for a, n in SIZES.items() for k in sorted({n, n + 1, 2 * n, n - 1} - {0 if n > 1 else -1, 1 if n > 1 else -1})
           for f in (("DM",) if a in ("L", "V") or "opt" in a else ("list", "DM")) for s in (False, True)]
    return [core.Suite("histories", sc, run), core.Suite("algebraic-control", deep, run), core.Suite("refused", ref, run), core.Suite("pre-solve-check", chk, run_check)]


if __name__ == "__main__":
    core.main("C11", build,
              {"quick": "all enabled sequences of 3 operations (44-operation alphabet) on an empty problem and of 2 on a rich one, of 1-2 on one with vectors of 12, of 2 / 1-2 with one name for every variable; 1+4 / 3 operations over a 17-operation algebraic/control alphabet; 15 refused requests in up to 7 contexts; every vector and cost of a problem given too short, right, too long",
               "thorough": "4 / 3; 1+5 / 4"})
