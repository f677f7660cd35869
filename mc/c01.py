"""C01: state vector, initial-condition symbols and ODEs stay paired."""
from . import core, model_ref as mr

ALPHA = [
    "create_x_1", "create_x_2", "include_x_eq", "include_x_x0", "include_x_varslist",
    "remove_x_first", "remove_x_last", "remove_x_mid", "remove_x_two",
    "ode_list_guess", "ode_list_undef", "ode_vec_undef-reversed", "ode_der_undef", "ode_dervec_undef",
    "ode_mixed_undef-reversed", "ode_sparse_undef", "ode_vec_first", "ode_der_last", "ode_ambiguous", "ode_wrong_size",
    "include_x_again", "replace_swap", "replace_any_expr",
]
RICH = ["create_x_2x2", "include_x_eqx0", "include_x_vars", "include_x_plain", "ode_vec_guess",
        "ode_list_guess-part", "ode_list_last", "ode_mixed_first", "replace_time", "remove_x_all", "ode_sparse_undef-reversed"]


def run(seq, tr):
    mr.run_history(seq, tr, dae=True)


def run_prefixed(seq, tr):
    mr.run_history(seq, tr, dae=True, model_kw={"name": "tank", "model_name_as_prefix": True})


def run_same(seq, tr):
    mr.run_history(seq, tr, dae=True, one_name="v")


def build(tier):
    import yaocptool.modelling  # noqa: F401

    d = 4 if tier == "quick" else 5
    pre = ("create_u_1", "create_p_1", "create_y_1")
    suites = [
        core.Suite("histories", mr.sequences(ALPHA, d), run),
        core.Suite("rich", mr.sequences(ALPHA[:1] + ALPHA[5:7] + ALPHA[9:13] + RICH, 3 if tier == "quick" else 4, pre), run),
        core.Suite("wide", mr.sequences(ALPHA + RICH, 2 if tier == "quick" else 3, ("create_x_12",)), run),
        core.Suite("same-name", mr.sequences(ALPHA, 3, ("create_x_1",)), run_same),
        core.Suite("prefixed", mr.sequences(ALPHA, 3, ("create_x_1",)), run_prefixed),
    ]
    return suites


if __name__ == "__main__":
    core.main(
        "C01", build,
        {"quick": "all enabled operation sequences of length 4 over a 23-operation state/ODE alphabet, length 3 over a 18-operation alphabet on a model with u, p, y, and length 1+3 on a name-prefixed model and on a model whose variables all have one name, length 1+2 on a model with 12 states",
         "thorough": "the same alphabets, length 5 / 4 / 1+3"},
        ["expressions are compared by evaluation at two generic points"],
    )
