"""C08: a DAESystem keeps meaning the same system through joins, substitutions and time conversion."""
import copy
import itertools

from . import core
from .core import Disagreement, require
from .sym import Env, Poly, compare

P = Poly.tok


class Ref:
    def __init__(self):
        self.x, self.y, self.p, self.ode, self.alg = [], [], [], [], []
        self.t = self.tau = None
        self.n = 100000

    def key(self):
        return (tuple(self.x), tuple(self.y), tuple(self.p), tuple(e.key() for e in self.ode), tuple(e.key() for e in self.alg), self.t, self.tau)


def make(kind, base, env):
    """A system of the library on fresh symbols (tokens from `base`)."""
    import casadi as ca
    from yaocptool.modelling import DAESystem

    n = {"ode": (1, 0, 0), "ode_p": (2, 0, 2), "dae": (1, 1, 0), "dae_p": (2, 2, 1), "ode_tau": (1, 0, 1), "dae_tau": (1, 2, 1), "notau": (1, 1, 1)}[kind]
    r = Ref()
    k = base
    r.t = k
    r.tau = None if kind == "notau" else k + 1
    k += 2
    for nm, c in zip("xyp", n):
        setattr(r, nm, list(range(k, k + c)))
        k += c
    vs = r.x + r.y + r.p
    for i, t in enumerate(r.x):
        e = (i + 2) * P(t) + P(r.t) * P(vs[-1]) + sum((P(v) for v in vs), Poly())
        if kind.endswith("tau") and kind != "notau":
            e = e + 3 * P(r.tau)
        r.ode.append(e)
    for i, t in enumerate(r.y):
        e = P(t) - (i + 3) * P(vs[0]) + P(r.t)
        if kind == "dae_tau" and i == 1:
            e = e + P(r.tau) * P(vs[0])
        r.alg.append(e)
    for t in [r.t] + ([r.tau] if r.tau is not None else []) + vs:
        env.bind(t, ca.SX.sym("s%d" % t))
    kw = dict(x=env.vec(r.x), ode=env.sxs(r.ode), t=env.sym[r.t])
    if r.y:
        kw.update(y=env.vec(r.y), alg=env.sxs(r.alg))
    if r.p:
        kw["p"] = env.vec(r.p)
    if r.tau is not None:
        kw["tau"] = env.sym[r.tau]
    return DAESystem(**kw), r


def subst(r, mp):
    vm = {a: list(b.tokens())[0] for a, b in mp.items()}
    for nm in "xyp":
        setattr(r, nm, [vm.get(t, t) for t in getattr(r, nm)])
    r.ode = [e.subs(mp) for e in r.ode]
    r.alg = [e.subs(mp) for e in r.alg]


def observe(d, r, env):
    for nm in "xyp":
        require(env.toks_of(getattr(d, nm), nm) == getattr(r, nm), "vector:" + nm, "%s" % getattr(d, nm))
    compare(env, d.ode, r.ode, "ode")
    compare(env, d.alg, r.alg, "alg")
    require(env.toks_of(d.t) == [r.t], "t", "")
    require((d.tau is None) == (r.tau is None) and (d.tau is None or env.toks_of(d.tau) == [r.tau]), "tau", "")
    kind = "dae" if r.alg else "ode"
    require(d.type == kind and bool(d.is_dae) == (kind == "dae") and bool(d.is_ode) == (kind == "ode"), "type", d.type)
    require(bool(d.has_parameters) == bool(r.p), "has_parameters", "")
    dd = d.dae_system_dict
    exp = {"x", "ode", "t"} | ({"z", "alg"} if r.alg else set()) | ({"p"} if r.p else set())
    require(set(dd) == exp, "dict-keys", "%s" % sorted(dd))
    require(env.toks_of(dd["x"]) == r.x and env.toks_of(dd["t"]) == [r.t], "dict-x", "")
    compare(env, dd["ode"], r.ode, "dict.ode")
    if r.alg:
        require(env.toks_of(dd["z"]) == r.y, "dict-z", "")
        compare(env, dd["alg"], r.alg, "dict.alg")
    if r.p:
        require(env.toks_of(dd["p"]) == r.p, "dict-p", "")
    live = set(r.x + r.y + r.p + [r.t]) | ({r.tau} if r.tau is not None else set())
    used = set().union(set(), *[e.tokens() for e in r.ode + r.alg])
    for t, s in env.sym.items():
        require(bool(d.has_variable(s)) == (t in live), "has_variable", "%s" % s)
        require(bool(d.depends_on(s)) == (t in used), "depends_on", "%s" % s)
    # what must be refused
    import casadi as ca

    x0, p = ca.DM.zeros(len(r.x)), ca.DM.zeros(len(r.p))
    try:
        d.simulate(x0, t_f=1.5, t_0=1.5, p=p)
        raise Disagreement("zero-horizon-accepted", "simulate accepted t_0 == t_f")
    except Disagreement:
        raise
    except ValueError:
        pass
    if r.tau is not None and r.tau in used:
        try:
            d.simulate(x0, t_f=1.0, p=p)
            raise Disagreement("tau-accepted", "simulate accepted a system that depends on tau")
        except Disagreement:
            raise
        except AttributeError:
            pass


OPS = ["join_ode", "join_ode_p", "join_dae_p", "join_dae_tau", "join_notau", "subst_x", "subst_p", "subst_swap", "subst_y", "subst_t",
       "tau2t_01", "tau2t_25", "tau2t_neg"]


def apply(name, d, r, env, i):
    """Returns False when not applicable."""
    import casadi as ca

    if name.startswith("join_"):
        kind = name[5:]
        if kind != "notau" and r.tau is None:
            return False
        o, ro = make(kind, 1000 * (i + 1), env)
        before = ro.key()
        d.join(o)
        mp = {ro.t: P(r.t)}
        if ro.tau is not None and r.tau is not None:
            mp[ro.tau] = P(r.tau)
        r.x += ro.x
        r.y += ro.y
        r.p += ro.p
        r.ode += [e.subs(mp) for e in ro.ode]
        r.alg += [e.subs(mp) for e in ro.alg]
        assert before == ro.key()
        sub = Env()
        for t in ro.x + ro.y + ro.p + [ro.t] + ([ro.tau] if ro.tau is not None else []):
            sub.bind(t, env.sym[t])
        observe(o, ro, sub)  # the joined system is untouched
        return True
    if name.startswith("subst_"):
        w = name[6:]
        if w == "t":
            t = r.n
            r.n += 1
            env.bind(t, ca.SX.sym("newt"))
            d.substitute_variable(env.sym[r.t], env.sym[t])
            subst(r, {r.t: P(t)})
            # d.t itself is not one of the substituted variable sets
            return True
        if w == "swap":
            vs = r.x + r.p + r.y
            if len(vs) < 2:
                return False
            a, b = vs[0], vs[-1]
            d.substitute_variable(env.vec([a, b]), env.vec([b, a]))
            subst(r, {a: P(b), b: P(a)})
            return True
        vec = getattr(r, w)
        if not vec:
            return False
        t = r.n
        r.n += 1
        env.bind(t, ca.SX.sym("new%s" % w))
        old = vec[-1]
        d.substitute_variable(env.sym[old], env.sym[t])
        subst(r, {old: P(t)})
        return True
    tk, h = {"tau2t_01": (0.0, 1.0), "tau2t_25": (2.0, 0.5), "tau2t_neg": (-1.0, 4.0)}[name]
    if r.tau is None:
        try:
            d.convert_from_tau_to_time(tk, tk + h)
        except AttributeError:
            return True
        raise Disagreement("tau2t-without-tau", "conversion accepted although there is no tau")
    d.convert_from_tau_to_time(tk, tk + h)
    mp = {r.tau: (P(r.t) - tk) * (1.0 / h)}
    r.ode = [e.subs(mp) for e in r.ode]
    r.alg = [e.subs(mp) for e in r.alg]
    return True


def run(sc, tr):
    kind, seq = sc
    env = Env()
    d, r = make(kind, 0, env)
    observe(d, r, env)
    tr.state((kind, r.key()))
    for i, name in enumerate(seq):
        if name == "subst_t" and "subst_t" in seq[:i]:
            return
        if not apply(name, d, r, env, i):
            return
        tr.step()
        try:
            observe(d, r, env)
        except Disagreement as e:
            raise Disagreement(e.key, "after %s: %s" % (seq[: i + 1], e.msg))
        tr.state((kind, r.key()))


def build(tier):
    import yaocptool.modelling  # noqa: F401

    n = 3 if tier == "quick" else 4
    kinds = ("ode", "ode_p", "dae", "dae_p", "ode_tau", "dae_tau", "notau")
    return [core.Suite("histories", [(k, s) for k in kinds for s in itertools.product(OPS, repeat=n)], run)]


if __name__ == "__main__":
    core.main("C08", build,
              {"quick": "7 systems x all sequences of 3 operations (13: joins, substitutions, time conversions)",
               "thorough": "sequences of 4"})
