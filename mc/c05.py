"""C05: including, merging and connecting models yields exactly the composed system."""
import itertools

from . import core, model_ref as mr
from .core import require
from .sym import Env, Poly

P = Poly.tok

LIB = [
    ("create_x_1", "create_u_1", "ode_list_guess"),
    ("create_x_2", "create_y_2", "create_u_2", "create_p_1", "ode_list_guess", "alg_list"),
    ("create_y_1", "create_theta_2", "create_u_1", "alg_equality"),
    ("create_x_1", "create_u_2", "create_y_1", "ode_der_undef", "parametrize_affine", "alg_vec"),
    ("create_x_2", "create_u_1", "ode_list_guess", "parametrize_feedback"),
    (),
    ("create_x_1", "create_u_1", "ode_list_guess", "alg_vec"),
    ("create_x_12", "create_y_12", "create_u_12", "create_p_12", "create_theta_12", "ode_list_guess", "alg_list"),
]
WIDE = 7
AFTER = ["connect_plain", "connect_replace", "connect_plain2", "connect_replace2", "create_u_1", "alg_equality", "replace_any_expr",
         "parametrize_feedback", "remove_u_last", "create_x_1", "replace_time"]


def absorb(ref, sub):
    """Reference semantics of inclusion: concatenation, with one common time."""
    mp = {sub.t: P(ref.t), sub.tau: P(ref.tau)}
    ref.x += sub.x
    ref.x0 += sub.x0
    for t in sub.x:
        ref.ode[t] = None if sub.ode[t] is None else sub.ode[t].subs(mp)
    ref.y += sub.y
    ref.alg += [a.subs(mp) for a in sub.alg]
    ref.u += sub.u
    ref.u_par += sub.u_par
    ref.u_expr += [e.subs(mp) for e in sub.u_expr]
    ref.parametrized |= sub.parametrized
    ref.p += sub.p
    ref.theta += sub.theta


def run(sc, tr):
    host, subs, how, after = sc
    env = Env()
    if how.endswith("~"):  # every variable of every model has the same name
        env.one_name, how = "v", how[:-1]
    m, _, ref = mr.build_model(LIB[host], env=env)
    parts = [mr.build_model(LIB[s], base=1000 * (i + 1), env=env) for i, s in enumerate(subs)]
    models = [q[0] for q in parts]
    extra = []
    if how == "include_list":
        m.include_models(models)
    elif how == "include_each":
        for q in models:
            m.include_models(q)
    elif how == "merge":
        m.merge(models)
    elif how == "merge_each":
        for q in models:
            m.merge(q)
    elif how == "merge_eq":
        vs = [t for _, _, r in parts for t in r.y + r.x][:2]
        extra = [2 * P(vs[0]) + P(vs[-1]) + P(ref.t) + 3 * P(ref.tau)] if vs else [P(ref.t)]
        m.merge(models, env.sxs(extra))
    elif how == "nested":
        # host <- (first <- second <- ...)
        for (a, _, ra), (b, _, rb) in reversed(list(zip(parts[:-1], parts[1:]))):
            a.include_models(b)
            absorb(ra, rb)
        m.include_models(models[0])
        parts = parts[:1]
    for _, _, r in parts:
        absorb(ref, r)
    ref.alg += extra
    tr.step()
    mr.observe(m, env, ref)
    mr.observe_dae(m, env, ref)
    tr.state((sc[:3], ref.key()))
    for name in after:
        pl = mr.step(ref, name)
        if pl is None:
            return
        mr.OPS[name].act(m, env, pl)
        tr.step()
        mr.observe(m, env, ref)
        mr.observe_dae(m, env, ref)
        tr.state((sc[:3], ref.key()))
    # the models that were included are untouched
    for q, _, r in parts:
        mr.observe(q, env, r)
        require(env.toks_of(q.t) == [r.t], "submodel-time", "")


def build(tier):
    import yaocptool.modelling  # noqa: F401

    k = 2 if tier == "quick" else 3
    hows = ("include_list", "include_each", "merge", "merge_each", "merge_eq", "nested")
    scs = []
    for host in range(WIDE):
        for n in (1, 2, 3):
            for subs in itertools.product(range(WIDE), repeat=n):
                if n == 3 and tier == "quick" and len(set(subs)) < 3:
                    continue
                for how in hows:
                    if how == "nested" and n == 1:
                        continue
                    if n == 3 and tier == "quick" and how not in ("include_list", "nested"):
                        continue
                    scs.append((host, subs, how, ()))
    chains = []
    for host, subs in ((5, (1, 3)), (1, (0, 1)), (5, (1, 2, 1)), (3, (1,)), (5, (4, 1))):
        for after in itertools.product(AFTER, repeat=k):
            chains.append((host, subs, "merge", after))
    for how in hows:
        for other in range(WIDE + 1):
            scs += [(WIDE, (other,), how, ()), (other, (WIDE,), how, ()), (5, (other, WIDE), how, ()), (5, (WIDE, other), how, ())] if how != "nested" else [(5, (other, WIDE), how, ()), (5, (WIDE, other), how, ())]
    scs += [(h, subs, how + "~", ()) for h, subs, how, _ in scs if len(subs) < 3 and WIDE not in subs + (h,)]
    chains += [(h, subs, how + "~", (a,)) for h, subs in ((5, (1, 3)), (1, (0, 1)), (3, (1,)), (5, (4, 1))) for how in ("merge", "include_each") for a in AFTER]
    for a in AFTER:
        chains += [(5, (WIDE, 1), "merge", (a,)), (WIDE, (2,), "merge", (a,))]
    return [core.Suite("compose", scs, run), core.Suite("then-connect", chains, run)]


if __name__ == "__main__":
    core.main(
        "C05", build,
        {"quick": "all hosts (7) x all tuples of 1-2 submodels (and distinct triples) from a 7-model library (one with an algebraic equation and no algebraic variable) x 6 ways of composing; then all sequences of 2 connection/parametrisation operations (11) on 5 compositions; compositions with a model of vectors of 12; compositions of models whose variables share one name",
         "thorough": "all tuples of up to 3 submodels, sequences of 3 operations"},
        ["expressions are compared by evaluation at two generic points"],
    )
