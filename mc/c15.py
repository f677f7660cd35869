"""C15: the multiple-shooting NLP is the stated problem."""
import itertools

from . import core, transcribe as T


def run(cfg, tr):
    import casadi as ca

    pr = T.Problem(cfg)
    o, m = T.make_method(pr, cfg)
    rec = T.record(m)
    T.check_layout(pr, cfg, m)
    T.check_bounds(pr, cfg, m)
    if cfg.get("as_sum"):
        # the cost state restarts at zero in every element: evaluate there
        X = T.unpack(m, list(range(m.opt_problem.x.numel())))[0]
        zero = {int(r[0][-1]) for r in X}
        rec.point = lambda i: 0.0 if i in zero else T.gen(i)
    p, th = T.data(pr, cfg["n"])
    x_0 = [0.55, -0.15][: pr.nx] + [0.0]
    last_u = [0.35 + 0.1 * i for i in range(pr.nu)] if cfg.get("last_u") else None
    kw = {}
    if last_u is not None:
        kw["last_u"] = ca.DM(last_u)
    m.solve(p=ca.DM(p) if p else None, theta={k: ca.DM(v) for k, v in th.items()} if pr.nth else None, x_0=ca.DM(x_0),
            initial_guess=ca.DM.zeros(m.opt_problem.x.numel()), **kw)
    T.check_nlp(pr, cfg, rec.calls[-1], m, p, th, x_0, last_u, 2e-4)
    tr.step(len(T.floats(rec.calls[-1]["g"])) + 1)
    tr.state(sorted((k, repr(v)) for k, v in cfg.items()))


def build(tier):
    import yaocptool.methods  # noqa: F401

    th = tier == "thorough"
    out = []
    whens = [(), ("default",), ("end",), ("default", "end")]
    for model in T.MODELS:
        nu, ny = T.MODELS[model]["n"][2], T.MODELS[model]["n"][1]
        for integ in ("implicit", "collocation") if ny else ("implicit", "explicit", "collocation"):
            for dc in (1, 2, 3) if nu else (1,):
                for n in (1, 2, 3) if not th else (1, 2, 3, 5):
                    for t0 in (0.0, 1.5) if not th else (0.0, 1.5, -0.7):
                        for w in whens:
                            for s in (False, True):
                                if s and w not in ((), ("default", "end")):
                                    continue
                                out.append(dict(scheme="multiple-shooting", model=model, dc=dc, n=n, t0=t0, tf=t0 + 1.2, when=w, V=True, S=True, final=True, h=True, bounds=True,
                                                p_opt=(1,), th_opt=(2, 0), integrator=integ, as_sum=s))
    for model in T.MODELS:
        for n in (1, 3):
            for k in range(32):
                bits = [bool(k >> i & 1) for i in range(5)]
                for s in (False, True):
                    out.append(dict(scheme="multiple-shooting", model=model, dc=1, n=n, t0=-0.5, tf=0.4, when=("default",) if bits[0] else (), V=bits[1], S=bits[2], final=bits[3], h=False,
                                    bounds=bits[4], L=not (bits[1] and bits[2]), as_sum=s))
            if T.MODELS[model]["n"][2]:
                for du in ("all", "first", "upper", "lower", "last"):
                    for lu in (False, True):
                        for po, to in (((), ()), ((0,), (1,)), ((2, 0), (0, 1, 2))):
                            out.append(dict(scheme="multiple-shooting", model=model, dc=1, n=n, t0=0.5, tf=1.0, du=du, last_u=lu, last_u_par=lu, p_opt=po, th_opt=to, bounds=lu, S=True))
    for model in T.MODELS:
        for dc, n in ((1, 6), (4, 5), (2, 9), (1, 12)):
            out.append(dict(scheme="multiple-shooting", model=model, dc=dc if T.MODELS[model]["n"][2] else 1, n=n, t0=0.4, tf=2.0, when=("default", "end"), V=True, S=True, final=True, h=True, bounds=True, p_opt=(2, 1), th_opt=(1,),
                            du="all" if dc == 1 and T.MODELS[model]["n"][2] else "none", last_u=dc == 1 and T.MODELS[model]["n"][2] > 0, last_u_par=dc == 1 and T.MODELS[model]["n"][2] > 0))
    W = ("default", "end")
    for model in ("int", "two", "full"):
        for ne, ni in ((1, 2), (2, 1)):
            for we in itertools.product(W, repeat=ne):
                for wi in itertools.product(W, repeat=ni):
                    out.append(dict(scheme="multiple-shooting", model=model, dc=1, n=2, t0=0.3, tf=1.3, when_eq=we, when_ineq=wi, V=True, S=True))
    # every selection of optimised parameters and thetas, in every order
    sel = [q for k in range(4) for q in itertools.permutations(range(3), k)]
    for po in sel:
        for to in sel:
            if th or po in ((), (1,), (2, 0, 1)) or to in ((), (1,), (2, 0, 1)):
                out.append(dict(scheme="multiple-shooting", model="full", dc=1, n=2, t0=0.3, tf=1.3, when=("end",), V=True, S=True, bounds=True, h=True, final=True, p_opt=po, th_opt=to))
    return [core.Suite("configurations", out, run), core.Suite("refused", T.refused_configs("multiple-shooting"), T.run_refused)]


if __name__ == "__main__":
    core.main("C15", build,
              {"quick": "6 models x integrators x control degree 1-3 x 1-3 elements x 2 initial times x 4 path-constraint placements x cost as state or as sum; all subsets of cost/constraint parts; rate bounds x last control x optimised parameters; 4 larger grids (up to 12 elements); own evaluation times; optimised parameters and thetas selected in every order; 26 requests of which those with rate bounds on a control polynomial or a parameter vector of wrong size are refused",
               "thorough": "3 initial times, up to 5 elements"},
              ["the NLP is evaluated at one generic point and compared with an independent RK4 transcription on floats (2e-4)", "'start' path constraints are refused by this scheme and are not explored"])
