"""C14: the collocation NLP is the stated problem."""
import itertools

from . import core, transcribe as T


def run(cfg, tr):
    pr = T.Problem(cfg)
    o, m = T.make_method(pr, cfg)
    rec = T.record(m)
    T.check_layout(pr, cfg, m)
    T.check_bounds(pr, cfg, m)
    p, th = T.data(pr, cfg["n"])
    x_0 = [0.55, -0.15][: pr.nx] + [0.0]
    last_u = [0.35 + 0.1 * i for i in range(pr.nu)] if cfg.get("last_u") else None
    import casadi as ca

    kw = {}
    if last_u is not None:
        kw["last_u"] = ca.DM(last_u)
    m.solve(p=ca.DM(p) if p else None, theta={k: ca.DM(v) for k, v in th.items()} if pr.nth else None, x_0=ca.DM(x_0),
            initial_guess=ca.DM.zeros(m.opt_problem.x.numel()), **kw)
    T.check_nlp(pr, cfg, rec.calls[-1], m, p, th, x_0, last_u, 1e-7)
    tr.step(len(T.floats(rec.calls[-1]["g"])) + 1)
    tr.state(sorted((k, repr(v)) for k, v in cfg.items()))


def build(tier):
    import yaocptool.methods  # noqa: F401

    th = tier == "thorough"
    out = []
    whens = [(), ("default",), ("start",), ("end",), ("default", "end", "start")]
    for model in T.MODELS:
        for d in (1, 2, 3, 4) if th else (1, 2, 3):
            for dc in (1, 2, 3) if T.MODELS[model]["n"][2] else (1,):
                for n in (1, 2, 3) if not th else (1, 2, 3, 5):
                    for t0 in (0.0, 1.5):
                        for w in whens:
                            out.append(dict(scheme="collocation", model=model, d=d, dc=dc, n=n, t0=t0, tf=t0 + 1.2, when=w, V=True, S=True, final=True, h=True, bounds=True,
                                            p_opt=(1,), th_opt=(2, 0)))
    # parts one at a time, and the delta-u / last-u combinations
    for model in T.MODELS:
        for n in (1, 3):
            for k in range(32):
                bits = [bool(k >> i & 1) for i in range(5)]
                out.append(dict(scheme="collocation", model=model, d=2, dc=1, n=n, t0=-0.5, tf=0.4, when=("default",) if bits[0] else (), V=bits[1], S=bits[2], final=bits[3], h=False, bounds=bits[4],
                                L=not (bits[1] and bits[2])))
            if T.MODELS[model]["n"][2]:
                for du in ("all", "first", "upper", "lower", "last"):
                    for lu in (False, True):
                        for po, to in (((), ()), ((0,), (1,)), ((2, 0), (0, 1, 2))):
                            out.append(dict(scheme="collocation", model=model, d=2, dc=1, n=n, t0=0.5, tf=1.0, du=du, last_u=lu, last_u_par=lu, p_opt=po, th_opt=to, bounds=lu, S=True))
    # more elements and higher degrees than the exhaustive part
    for model in T.MODELS:
        for d, dc, n in ((2, 1, 6), (5, 2, 4), (1, 5, 5), (3, 4, 9), (1, 1, 12), (7, 1, 1)):
            out.append(dict(scheme="collocation", model=model, d=d, dc=dc if T.MODELS[model]["n"][2] else 1, n=n, t0=0.4, tf=2.0, when=("default", "end", "start"), V=True, S=True, final=True, h=True, bounds=True, p_opt=(2, 1), th_opt=(1,),
                            du="all" if dc == 1 and T.MODELS[model]["n"][2] else "none", last_u=dc == 1 and T.MODELS[model]["n"][2] > 0, last_u_par=dc == 1 and T.MODELS[model]["n"][2] > 0))
    # equalities and inequalities with their own evaluation times
    W = ("default", "start", "end")
    for model in ("int", "two", "full"):
        for ne, ni in ((1, 1), (1, 2), (2, 1)) if not th else ((1, 1), (1, 2), (2, 1), (2, 2), (0, 3), (3, 0)):
            for we in itertools.product(W, repeat=ne):
                for wi in itertools.product(W, repeat=ni):
                    out.append(dict(scheme="collocation", model=model, d=2, dc=1, n=2, t0=0.3, tf=1.3, when_eq=we, when_ineq=wi, V=True, S=True))
    # every selection of optimised parameters and thetas, in every order
    sel = [q for k in range(4) for q in itertools.permutations(range(3), k)]
    for po in sel:
        for to in sel:
            if th or po in ((), (1,), (2, 0, 1)) or to in ((), (1,), (2, 0, 1)):
                out.append(dict(scheme="collocation", model="full", d=1, dc=1, n=2, t0=0.3, tf=1.3, when=("end",), V=True, S=True, bounds=True, h=True, final=True, p_opt=po, th_opt=to))
    return [core.Suite("configurations", out, run), core.Suite("refused", T.refused_configs("collocation"), T.run_refused)]


if __name__ == "__main__":
    core.main("C14", build,
              {"quick": "6 models (ODE, DAE, time-dependent, parameters, thetas, no controls) x degree 1-3 x control degree 1-3 x 1-3 elements x 2 initial times x 5 path-constraint placements; all subsets of cost/constraint parts; rate bounds x last control x optimised parameters; 6 larger grids (up to 12 elements, degree 7); equalities and inequalities with every combination of own evaluation times; optimised parameters and thetas selected in every order; 26 requests of which those with rate bounds on a control polynomial or a parameter vector of wrong size are refused",
               "thorough": "degree 1-4, up to 5 elements"},
              ["the NLP is evaluated at one generic point and compared with an independent transcription on floats (1e-7)"])
