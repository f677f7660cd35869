"""C03: substituting or parametrising a variable rewrites every equation, and only that."""
from . import core, model_ref as mr

SUB = ["replace_p_const", "replace_swap", "replace_time", "replace_any_expr", "replace_sparse", "replace_foreign", "replace_bad_size",
       "parametrize_feedback", "parametrize_affine", "parametrize_two", "parametrize_sparse", "parametrize_again", "parametrize_again-mixed",
       "connect_replace", "connect_replace2", "connect_plain", "alg_list", "ode_vec_first", "create_u_1", "remove_u_first"]
BASES = [
    ("create_x_2", "create_y_2", "create_u_2", "create_p_2", "create_theta_1", "ode_list_guess", "alg_list"),
    ("create_u_1", "create_x_1", "create_y_1", "ode_der_undef", "alg_equality"),
    ("create_x_1", "create_u_2x2", "ode_list_guess"),
    ("create_p_1", "create_theta_2", "create_x_2x2", "create_u_1", "ode_vec_guess"),
]
WIDE = [("create_x_12", "create_y_12", "create_u_12", "create_p_12", "create_theta_12", "ode_list_guess", "alg_list"), ("create_u_12", "create_x_1", "create_y_12", "ode_der_undef", "alg_equality")]


def run(seq, tr):
    mr.run_history(seq, tr, dae=True)


def run_same(seq, tr):
    mr.run_history(seq, tr, dae=True, one_name="v")


def build(tier):
    import yaocptool.modelling  # noqa: F401

    d = 3 if tier == "quick" else 4
    wide = [s for b in WIDE for s in mr.sequences(SUB, d - 1, b)]
    return [core.Suite("base%d" % i, mr.sequences(SUB, d, b), run) for i, b in enumerate(BASES)] + [core.Suite("wide", wide, run), core.Suite("same-name", [s for b in BASES for s in mr.sequences(SUB, d - 1, b)], run_same)]


if __name__ == "__main__":
    core.main(
        "C03", build,
        {"quick": "all enabled sequences of 3 substitution/parametrisation/connection operations (20-operation alphabet) on 4 base models, of 2 on 2 models with vectors of 12 and on the base models with one name for all their variables",
         "thorough": "the same, sequences of 4"},
        ["expressions are compared by evaluation at two generic points"],
    )
