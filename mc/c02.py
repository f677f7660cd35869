"""C02: algebraic, control and parameter vectors hold exactly the live variables."""
from . import core, model_ref as mr

ALG = ["create_y_1", "create_y_2", "include_y_eq", "include_y_varslist", "remove_y_first", "remove_y_mid", "remove_y_two",
       "remove_y_last", "remove_y_with_eq", "remove_y_missing", "alg_list", "alg_vec", "alg_sparse", "alg_equality", "connect_plain",
       "connect_replace", "connect_plain2"]
CTRL = ["create_u_1", "create_u_2", "include_u_plain", "include_u_varslist", "remove_u_first", "remove_u_mid", "remove_u_two",
        "remove_u_last", "remove_u_missing", "parametrize_feedback", "parametrize_affine", "parametrize_two",
        "parametrize_again", "parametrize_again-mixed", "parametrize_bad_size", "connect_plain", "create_input_1"]
PAR = ["create_p_1", "create_p_2", "include_p_plain", "include_p_vars", "remove_p_first", "remove_p_mid", "remove_p_two",
       "remove_p_missing", "create_theta_1", "create_theta_2", "include_theta_plain", "include_theta_varslist",
       "remove_theta_first", "remove_theta_mid", "remove_theta_two", "remove_theta_missing", "replace_p_const"]
ALL = ["create_x_1", "create_y_2", "create_u_2", "create_p_1", "create_theta_1", "create_u_2x2", "create_y_2x2", "create_p_2x2",
       "create_theta_2x2", "include_x_eq", "include_y_eq", "include_u_vars", "alg_equality", "remove_u_all", "remove_y_all",
       "remove_p_all", "remove_theta_all", "remove_x_all", "ode_mixed_first", "parametrize_affine", "connect_replace2"]


def run(seq, tr):
    mr.run_history(seq, tr, dae=True)


def run_same(seq, tr):
    mr.run_history(seq, tr, dae=True, one_name="v")


def build(tier):
    import yaocptool.modelling  # noqa: F401

    d = 4 if tier == "quick" else 5
    base = ("create_x_2", "create_u_2", "create_u_1")
    return [
        core.Suite("algebraic", mr.sequences(ALG, d, ("create_u_2",)), run),
        core.Suite("control", mr.sequences(CTRL, d, ("create_x_1", "create_y_1")), run),
        core.Suite("parameters", mr.sequences(PAR, d), run),
        core.Suite("wide", [s for a, b in ((ALG, ("create_y_12",)), (CTRL, ("create_x_1", "create_y_1", "create_u_12")), (PAR, ("create_p_12", "create_theta_12")), (ALL, ("create_x_12", "create_y_12", "create_u_12")))
                            for s in mr.sequences(a, 2 if tier == "quick" else 3, b)], run),
        core.Suite("same-name", [s for a, b in ((ALG, ("create_u_2",)), (CTRL, ("create_x_1", "create_y_1")), (PAR, ()), (ALL, base[:2])) for s in mr.sequences(a, d - 1 if a is not ALL else d - 2, b)], run_same),
        core.Suite("all", mr.sequences(ALL, d - 1 if tier == "quick" else d, base[:2]), run),
    ]


if __name__ == "__main__":
    core.main(
        "C02", build,
        {"quick": "all enabled operation sequences of length 4 over an algebraic (17 operations), a control (17) and a parameter (17) alphabet, and of length 3 over a mixed alphabet (21), length 2 over each on vectors of 12, and length 3 (2 mixed) with one name for every variable",
         "thorough": "the same alphabets, length 5"},
        ["expressions are compared by evaluation at two generic points"],
    )
