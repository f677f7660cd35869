"""C20: a network composes its nodes through exactly its connections."""
import itertools
import math

from . import core
from .core import require
from .sym import Env, Poly, close, point

P = Poly.tok
N_IN = 2


def co(i, k):
    """generic coefficients, small enough for every wiring loop to be solvable"""
    return 0.05 + 0.2 * math.modf((7 * i + k + 1) * 0.6180339887498949)[0]


class NodeRef:
    def __init__(self, i, variant):
        self.i, self.variant = i, variant
        b = 100 * (i + 1)
        self.name = "N%d" % i
        self.x = [b + 1, b + 2] if variant in (1, 3) else ([] if variant == 2 else [b + 1])
        self.z = [b + 11] + ([b + 12] if variant == 2 else [])
        self.u = [b + 21]
        self.v = [b + 31 + k for k in range(N_IN)]
        self.p = [b + 41] if variant == 1 else []
        self.theta = [b + 51] if variant == 3 else []
        self.t = b + 61
        c = lambda k: co(i, k)
        both = [P(self.u[0])] + [P(q) for q in self.v]
        src = [P(q) for q in self.x] or [P(self.u[0])]
        k = 0
        self.ode = {}
        for n, s in enumerate(self.x):
            self.ode[s] = -1 * P(s) * (0.5 + n) + sum((c(10 * n + j) * e for j, e in enumerate(both + [P(self.z[0])])), Poly()) + 0.1 * P(self.t) * c(9)
            for e in self.p + self.theta:
                self.ode[s] = self.ode[s] + c(8) * P(e)
        self.alg = []
        for n, s in enumerate(self.z):
            self.alg.append(P(s) - (sum((c(30 + 7 * n + j) * e for j, e in enumerate(both)), Poly()) + c(5) * src[0] + c(6) * P(self.t)))
        self.out = [self.z[0], self.x[0] if self.x else self.z[1]]
        vs = self.x + self.z + self.u + self.v
        self.L = sum(((1 + j) * P(q) * P(q) for j, q in enumerate(vs)), Poly()) + c(3) * P(self.t) + c(4) * P(vs[0]) * P(vs[-1])
        self.V = (2 + i) * P(self.x[0]) * P(self.x[0]) if self.x else Poly()
        self.g_ineq = [P(self.v[0]) + c(1) * P(self.u[0]) - 3]
        self.h_final = [P(self.x[0]) - c(2)] if self.x else []
        self.lo = {q: -(5 + i + j) for j, q in enumerate(vs)}
        self.hi = {q: 6 + i + 2 * j for j, q in enumerate(vs)}
        self.guess = {q: 0.1 + c(60 + j) for j, q in enumerate(vs)}
        self.x_0 = [0.3 + 0.2 * i + 0.1 * j for j in range(len(self.x))]

    def build(self, env, t_0, t_f, with_problem):
        from yaocptool.modelling import OptimalControlProblem, SystemModel

        m = SystemModel(name=self.name)
        prob = OptimalControlProblem(model=m, t_0=t_0, t_f=t_f, name="P" + self.name, x_0=self.x_0) if with_problem else None
        # variables are declared on the model and then bounded in the problem
        for q in self.x:
            env.bind(q, m.create_state("x%d" % q))
        for q in self.z:
            env.bind(q, m.create_algebraic_variable("y%d" % q))
        for q in self.u + self.v:
            env.bind(q, m.create_control("u%d" % q))
        for q in self.p:
            env.bind(q, m.create_parameter("p%d" % q))
        for q in self.theta:
            env.bind(q, m.create_theta("th%d" % q))
        env.bind(self.t, m.t)
        if self.x:
            m.include_equations(ode=env.sxs([self.ode[q] for q in self.x]))
        m.include_equations(alg=env.sxs(self.alg))
        if with_problem:
            import casadi as ca
            import yaocptool.modelling as mod

            prob = mod.OptimalControlProblem(
                model=m, t_0=t_0, t_f=t_f, name="P" + self.name,
                x_0=ca.DM(self.x_0), x_min=ca.DM([self.lo[q] for q in self.x]), x_max=ca.DM([self.hi[q] for q in self.x]),
                y_min=ca.DM([self.lo[q] for q in self.z]), y_max=ca.DM([self.hi[q] for q in self.z]),
                u_min=ca.DM([self.lo[q] for q in self.u + self.v]), u_max=ca.DM([self.hi[q] for q in self.u + self.v]),
                y_guess=ca.DM([self.guess[q] for q in self.z]), u_guess=ca.DM([self.guess[q] for q in self.u + self.v]),
                L=env.sx(self.L), V=env.sx(self.V))
            prob.g_ineq = env.sxs(self.g_ineq)
            if self.h_final:
                prob.h_final = env.sxs(self.h_final)
        return m, prob


def lin_solve(eqs, unknowns, val):
    """Solve the linear reference equations for the unknown tokens."""
    import numpy as np

    zero = lambda q: 0.0 if q in unknowns else val(q)
    one = lambda u: (lambda q: 1.0 if q == u else zero(q))
    b = np.array([e.eval(zero) for e in eqs], float)
    A = np.array([[e.eval(one(u)) for u in unknowns] for e in eqs], float).reshape(len(eqs), len(unknowns)) - b.reshape(-1, 1)
    return dict(zip(unknowns, np.linalg.solve(A, -b))) if unknowns else {}


class Ref:
    def __init__(self, nodes):
        self.nodes = nodes  # index -> NodeRef
        self.edges = {}  # (i, j) -> list of (out token, in token)

    def wires(self):
        return [w for e in self.edges.values() for w in e]

    def solve(self, val):
        """All the algebraic values of the composition, given states, free inputs and time."""
        tm = {n.t: P(0) for n in self.nodes}
        eqs = [a.subs(tm) for n in self.nodes for a in n.alg] + [P(b) - P(a) for a, b in self.wires()]
        unk = [z for n in self.nodes for z in n.z] + [b for _, b in self.wires()]
        return lin_solve(eqs, unk, val)


def check_dae(what, model, env, ref, tr, t_tok=0):
    """The composed model has the solutions of the nodes' equations joined by the wires."""
    import casadi as ca

    wired = [b for _, b in ref.wires()]
    xs = sorted(q for n in ref.nodes for q in n.x)
    us = sorted(q for n in ref.nodes for q in n.u + n.v if q not in wired)
    require(sorted(env.toks_of(model.x, what + ".x")) == xs, "states", lambda: "%s: %s" % (what, model.x))
    require(sorted(env.toks_of(model.u, what + ".u")) == us, "inputs", lambda: "%s: %s, the free inputs are %s" % (what, model.u, [env.sym[q] for q in us]))
    require(sorted(env.toks_of(model.p)) == sorted(q for n in ref.nodes for q in n.p), "p", lambda: "%s" % model.p)
    require(sorted(env.toks_of(model.theta)) == sorted(q for n in ref.nodes for q in n.theta), "theta", lambda: "%s" % model.theta)
    require(model.ode.numel() == model.x.numel() and model.alg.numel() == model.y.numel(), "square", lambda: "%s: %d y, %d alg" % (what, model.n_y, model.alg.numel()))
    ys = [model.y.nz[i] for i in range(model.y.numel())]
    known = {}
    for i, s in enumerate(ys):
        if s.element_hash() in env.tok:
            require(env.tok[s.element_hash()] not in known, "y-twice", lambda: "%s" % model.y)
            known[env.tok[s.element_hash()]] = i
    require(sorted(known) == sorted([z for n in ref.nodes for z in n.z] + wired), "algebraic-variables", lambda: "%s: %s" % (what, model.y))
    others = [s for s in ca.symvar(ca.vertcat(model.ode, model.alg)) if s.element_hash() not in {q.element_hash() for q in ys}]
    bad = [s for s in others if s.element_hash() != model.t.element_hash() and (s.element_hash() not in env.tok or env.tok[s.element_hash()] not in xs + us + env.toks_of(model.p) + env.toks_of(model.theta))]
    require(not bad, "foreign-symbol", lambda: "%s: %s in %s %s" % (what, bad, model.ode, model.alg))
    f = ca.Function("f", [model.y, ca.vertcat(*others) if others else ca.SX(0, 1)], [model.alg, ca.jacobian(model.alg, model.y), model.ode])
    sols = []
    for k in (0, 1):
        val0 = point(k)
        val = lambda q, k=k, val0=val0: 0.7 + k if q == 0 else val0(q)
        o = ca.DM([val(0 if s.element_hash() == model.t.element_hash() else env.tok[s.element_hash()]) for s in others])
        a0, A, _ = f(ca.DM.zeros(len(ys)), o)
        y = ca.solve(A, -a0) if ys else ca.DM(0, 1)
        res, _, ode = f(y, o)
        exp = ref.solve(val)
        for q, i in known.items():
            require(close(float(y[i]), exp[q], 1e-8), "signal", lambda: "%s: the equations give %s = %s, the wiring gives %s; alg: %s" % (what, env.sym[q], y[i], exp[q], model.alg))
        full = lambda q, exp=exp, val=val: exp[q] if q in exp else val(q)
        times = {n.t: P(0) for n in ref.nodes}
        for i, q in enumerate(env.toks_of(model.x)):
            n = next(n for n in ref.nodes if q in n.x)
            require(close(float(ode[i]), n.ode[q].subs(times).eval(full), 1e-8), "ode", lambda: "%s: ode of %s is %s" % (what, env.sym[q], model.ode[i]))
        sols.append((y, full))
    return ys, sols, times


def check_problem(problem, env, ref, tr, t_0, t_f, guessed):
    import casadi as ca

    model = problem.model
    ys, sols, times = check_dae("problem", model, env, ref, tr)
    require((float(problem.t_0), float(problem.t_f)) == (t_0, t_f), "horizon", lambda: "%s %s" % (problem.t_0, problem.t_f))

    def value(expr, y, full):
        expr = ca.SX(expr)
        syms = ca.symvar(expr)
        vals = []
        for s in syms:
            h = s.element_hash()
            j = [i for i, q in enumerate(ys) if q.element_hash() == h]
            if h == model.t.element_hash():
                vals.append(full(0))
            elif j:
                vals.append(float(y[j[0]]))
            else:
                require(h in env.tok, "foreign-symbol", lambda: "%s in %s" % (s, expr))
                vals.append(full(env.tok[h]))
        return [float(q) for q in ca.Function("f", [ca.vertcat(*syms) if syms else ca.SX(0, 1)], [ca.vec(expr)])(vals).full().ravel()] if expr.numel() else []

    for y, full in sols:
        for name in ("L", "V"):
            got = value(getattr(problem, name), y, full)
            exp = sum(getattr(n, name).subs(times).eval(full) for n in ref.nodes)
            require(len(got) == 1 and close(got[0], exp, 1e-8), "cost:" + name, lambda: "%s = %s, expected %s" % (name, got, exp))
        for name in ("g_ineq", "h_final"):
            got = sorted(value(getattr(problem, name), y, full))
            exp = sorted(e.subs(times).eval(full) for n in ref.nodes for e in getattr(n, name))
            require(len(got) == len(exp) and all(close(a, b, 1e-8) for a, b in zip(got, exp)), "constraints:" + name, lambda: "%s, expected %s" % (got, exp))
        require(problem.g_eq.numel() == 0 and not problem.time_g_eq.__len__() and problem.h_initial.numel() == len(env.toks_of(model.x)), "constraints:other", lambda: "%s %s" % (problem.g_eq, problem.h_initial))
    lo = {q: b for n in ref.nodes for q, b in n.lo.items()}
    hi = {q: b for n in ref.nodes for q, b in n.hi.items()}
    for vec, mn, mx in ((model.x, problem.x_min, problem.x_max), (model.y, problem.y_min, problem.y_max), (model.u, problem.u_min, problem.u_max)):
        mn, mx = ca.vertcat(mn), ca.vertcat(mx)
        require(mn.numel() == vec.numel() == mx.numel(), "bounds-size", lambda: "%s %s %s" % (vec, mn, mx))
        for i in range(vec.numel()):
            h = vec.nz[i].element_hash()
            e = (lo[env.tok[h]], hi[env.tok[h]]) if h in env.tok else (-math.inf, math.inf)
            require((float(mn[i]), float(mx[i])) == e, "bounds", lambda: "%s in [%s, %s], stated %s" % (vec.nz[i], mn[i], mx[i], e))
    x_0 = {q: v for n in ref.nodes for q, v in zip(n.x, n.x_0)}
    require([float(v) for v in ca.vertcat(problem.x_0).full().ravel()] == [x_0[q] for q in env.toks_of(model.x)], "x_0", lambda: "%s" % problem.x_0)
    g = {q: b for n in ref.nodes for q, b in n.guess.items()}
    for vec, gs in ((model.y, problem.y_guess), (model.u, problem.u_guess)):
        require(gs is not None or not guessed, "guess-lost", lambda: "%s" % vec)
        if gs is not None:
            require(gs.numel() == vec.numel(), "guess-size", lambda: "%s %s" % (vec, gs))
            for i in range(vec.numel()):
                h = vec.nz[i].element_hash()
                require(h not in env.tok or float(gs[i]) == g[env.tok[h]], "guess", lambda: "%s starts at %s" % (vec.nz[i], gs[i]))


def simulate(ref, u, t_0, t_f, n=40):
    import numpy as np

    xs = [q for nd in ref.nodes for q in nd.x]
    times = {nd.t: P(0) for nd in ref.nodes}
    odes = [nd.ode[q].subs(times) for nd in ref.nodes for q in nd.x]
    x = np.array([v for nd in ref.nodes for v in nd.x_0])

    def signals(x, t):
        val = dict(zip(xs, x))
        val.update(u)
        val[0] = t
        val.update(ref.solve(val.__getitem__))
        return val

    def f(x, t):
        val = signals(x, t)
        return np.array([o.eval(val.__getitem__) for o in odes])

    h = (t_f - t_0) / n
    for k in range(n):
        t = t_0 + k * h
        k1 = f(x, t)
        k2 = f(x + h / 2 * k1, t + h / 2)
        k3 = f(x + h / 2 * k2, t + h / 2)
        k4 = f(x + h * k3, t + h)
        x = x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    return signals(x, t_f)


def options(n, own=False):
    """every input is left free or fed by an output of another node (own: or of its own node)"""
    srcs = {i: [None] + [(a, o) for a in range(n) if a != i or own for o in (0, 1)] for i in range(n)}
    return srcs


def wirings(n, inputs, own=False):
    """inputs: the (node, input) pairs that may be fed"""
    s = options(n, own)
    for w in itertools.product(*[s[i] for i, _ in inputs]):
        yield tuple((src[0], src[1], i, k) for (i, k), src in zip(inputs, w) if src is not None)


def refusals(net, env, nodes, nodes_ref):
    """Variables that a node does not have cannot be connected, and the attempt leaves no trace."""
    before = [(e, str(d)) for e, d in net.connections.items()], list(net.nodes)
    for a in range(len(nodes)):
        for b in range(len(nodes)):
            if a == b:
                continue
            y, u = env.sym[nodes_ref[a].out[0]], env.sym[nodes_ref[b].v[0]]
            for args in ((u, u, nodes[a], nodes[b]), (y, y, nodes[a], nodes[b]), (y, u, nodes[b], nodes[a])):
                try:
                    net.connect(*args)
                except ValueError:
                    pass
                else:
                    require(False, "foreign-connection", lambda: "%s of %s connected to %s of %s" % (args[0], args[2], args[1], args[3]))
    require(([(e, str(d)) for e, d in net.connections.items()], list(net.nodes)) == before, "refusal-leaves-trace", lambda: "%s" % (net.connections,))


def run(sc, tr):
    """sc: (number of nodes, variants, wiring in connection order, grouped, mode, removed edge index, t_0, simulate)"""
    from yaocptool.modelling import Network, Node
    import casadi as ca

    n, variants, wiring, grouped, mode, removed, t_0, sim = sc
    t_f = t_0 + 1.25
    env = Env()
    nodes_ref = [NodeRef(i, variants[i]) for i in range(n)]
    ref = Ref(nodes_ref)
    with_problem = not mode.startswith("models")
    net = Network(name="net", intermediary_nodes=mode.endswith("at-connect"))
    nodes = []
    for r in nodes_ref:
        m, prob = r.build(env, t_0, t_f, with_problem)
        nodes.append(net.create_node(problem=prob, model=None if with_problem else m, name=None if r.i % 2 else r.name))
    before = [(str(nd.model.ode), str(nd.model.alg), str(nd.model.u), str(nd.model.y), str(getattr(nd.problem, "L", ""))) for nd in nodes]

    groups = []
    for w in wiring:
        if grouped and groups and (groups[-1][0][0], groups[-1][0][2]) == (w[0], w[2]):
            groups[-1].append(w)
        else:
            groups.append([w])
    refusals(net, env, nodes, nodes_ref)
    midway = int(mode.split(":")[1]) if mode.startswith("midway") else None
    plain = {}
    for j, g in enumerate(groups):
        if j == midway:
            net.insert_intermediary_nodes()
            tr.step()
        a, b = g[0][0], g[0][2]
        ys = [nodes_ref[a].out[w[1]] for w in g]
        us = [nodes_ref[b].v[w[3]] for w in g]
        net.connect(y=env.vec(ys), u=env.vec(us), node1=nodes[a], node2=nodes[b])
        ref.edges.setdefault((a, b), []).extend(zip(ys, us))
        if midway is not None and j >= midway:
            plain.setdefault((a, b), []).extend(zip(ys, us))
        tr.step()
    if mode in ("plain", "models"):
        require(set(net.connections) == {(nodes[a], nodes[b]) for a, b in ref.edges}, "edges", lambda: "%s" % (net.connections,))
        for (a, b), ws in ref.edges.items():
            d = net.connections[nodes[a], nodes[b]]
            require(list(zip(env.toks_of(d["y"]), env.toks_of(d["u"]))) == ws, "edge-data", lambda: "%s" % d)
        if removed is not None:
            e = sorted(ref.edges)[removed % len(ref.edges)]
            net.remove_connection(nodes[e[0]], nodes[e[1]])
            del ref.edges[e]
            tr.step()
        refusals(net, env, nodes, nodes_ref)
    elif midway is not None:
        direct = {e: d for e, d in net.connections.items() if e[0] in nodes and e[1] in nodes}
        require(set(direct) == {(nodes[a], nodes[b]) for a, b in plain}, "edges-after-insertion", lambda: "%s" % list(direct))
        for (a, b), ws in plain.items():
            d = direct[nodes[a], nodes[b]]
            require(list(zip(env.toks_of(d["y"]), env.toks_of(d["u"]))) == ws, "edge-data-after-insertion", lambda: "%s" % d)
    elif mode in ("afterwards", "twice"):
        for _ in range(1 + (mode == "twice")):
            net.insert_intermediary_nodes()
            tr.step()
        direct = [e for e in net.connections if e[0] in nodes and e[1] in nodes]
        require(not direct, "edges-remain", lambda: "%s" % direct)
    require(all(nd in net.nodes for nd in nodes), "node-lost", lambda: "%s, created %s" % (list(net.nodes), nodes))
    ids = [nd.node_id for nd in net.nodes]
    require(len(set(ids)) == len(ids), "ids", lambda: "%s" % ids)
    for nd, r in zip(nodes, nodes_ref):
        require(net[nd.node_id] is nd and net[r.name] is nd and net.get_node_by_id(nd.node_id) is nd and net.get_node_by_name(r.name) is nd, "lookup", lambda: "%s" % nd)
    groups = net.get_map_coloring_groups()
    flat = [nd for g in groups for nd in g]
    require(len(flat) == len(list(net.nodes)) and set(flat) == set(net.nodes), "coloring-partition", lambda: "%s" % groups)
    for g in groups:
        for a, b in itertools.permutations(g, 2):
            require((a, b) not in net.connections, "coloring-adjacent", lambda: "%s and %s are connected and in one group" % (a, b))
    for again in range(2):  # composing changes nothing that a later composition could see
        check_dae("model", net.get_model(), env, ref, tr)
        tr.step()
        if with_problem:
            check_problem(net.get_problem(), env, ref, tr, t_0, t_f, mode == "plain")
            tr.step()
    after = [(str(nd.model.ode), str(nd.model.alg), str(nd.model.u), str(nd.model.y), str(getattr(nd.problem, "L", ""))) for nd in nodes]
    require(before == after, "node-modified", lambda: "%s became %s" % (before, after))
    tr.state(sc)
    if sim:
        got = net.get_initial_condition(t_f)
        # the composed problem has a guess when all of its parts have one; the intermediary nodes have none
        known = mode == "plain" or not wiring
        exp = simulate(ref, {q: r.guess[q] if known else 0.0 for r in nodes_ref for q in r.u + r.v}, t_0, t_f)
        for r in nodes_ref:
            for kind, toks in (("x", r.x), ("y", r.z), ("u", r.u + r.v)):
                v = [float(q) for q in ca.vertcat(got[r.name][kind]).full().ravel()]
                require(len(v) == len(toks) and all(abs(a - exp[q]) < 2e-4 * (1 + abs(exp[q])) for a, q in zip(v, toks)), "initial-condition:" + kind,
                        lambda: "%s %s: %s, expected %s" % (r.name, kind, v, [exp[q] for q in toks]))
        tr.step()


def run_ids(sc, tr):
    """sc: ids given by the user (None: automatic), how they are included"""
    from yaocptool.modelling import Network, Node, SystemModel

    given, how = sc
    nodes = [Node(node_id=g, model=SystemModel(name="M%d" % i)) for i, g in enumerate(given)]
    if how == "init":
        net = Network(nodes)
    elif how == "list":
        net = Network()
        net.include_nodes(nodes)
    elif how == "created":
        net = Network()
        nodes = [net.create_node(model=SystemModel(name="M%d" % i), **({} if g is None else {"node_id": g})) for i, g in enumerate(given)]
    else:
        net = Network()
        for nd in nodes:
            net.include_nodes(nd)
            tr.step()
    tr.step()
    ids = [nd.node_id for nd in nodes]
    require(all(g is None or g == i for g, i in zip(given, ids)), "id-changed", lambda: "%s became %s" % (given, ids))
    require(len(set(ids)) == len(ids) and None not in ids, "ids", lambda: "given %s, used %s" % (given, ids))
    require(set(net.nodes) == set(nodes) and len(net.nodes) == len(nodes), "nodes", "")
    for i, nd in enumerate(nodes):
        require(net[nd.node_id] is nd and net["M%d" % i] is nd and nd.name == "M%d" % i, "lookup", lambda: "%s" % nd)
    for bad, exc in ((99, IndexError), ("nobody", KeyError)):
        try:
            net[bad]
        except exc:
            pass
        else:
            require(False, "lookup-unknown", bad)
    require([m.name for m in net.models] == ["M%d" % i for i in sorted(range(len(nodes)), key=lambda i: ids[i])], "models-order", "")
    tr.state((sc, tuple(ids)))


def build(tier):
    quick = tier == "quick"
    main, sims = [], []
    modes = ("plain", "models", "at-connect", "afterwards", "models-at-connect")
    two = [(0, 0), (0, 1), (1, 0), (1, 1)]
    three = [(0, 0), (1, 0), (2, 0)]
    for n, inputs, variants in ((2, two, (0, 1)), (2, two, (2, 3)), (3, three, (0, 1, 2)), (3, three + [(0, 1)] if not quick else three, (3, 2, 0)),
                                ) + (() if quick else ((3, three + [(0, 1), (1, 1)], (0, 1, 2)), (4, three + [(3, 0)], (0, 1, 2, 3)))):
        for w in wirings(n, inputs):
            orders = [w] if len(w) < 2 else [w, w[::-1]] if quick or len(w) > 3 else list(itertools.permutations(w))
            for order in orders:
                for mode in modes:
                    if mode.startswith("models") and order is not orders[0]:
                        continue
                    for grouped in (False, True):
                        if grouped and not any((a[0], a[2]) == (b[0], b[2]) for a, b in zip(order, order[1:])):
                            continue
                        main.append((n, variants, order, grouped, mode, None, 0.0 if mode != "afterwards" else 0.5, False))
            if mode == "plain" or len(w):
                for order in orders:
                    for mode in ["twice"] + ["midway:%d" % k for k in range(1, len(order))]:
                        main.append((n, variants, order, False, mode, None, 0.5, False))
                edges = {(a, b) for a, _, b, _ in w}
                for r in range(len(edges)):
                    main.append((n, variants, w, False, "plain", r, 0.5, False))
    # nodes that feed themselves
    for n, inputs, variants in ((1, [(0, 0), (0, 1)], (0,)), (1, [(0, 0), (0, 1)], (2,)), (2, two[:3] if quick else two, (1, 3))):
        for w in wirings(n, inputs, own=True):
            if any(a == b for a, _, b, _ in w):
                for mode in modes + ("twice",):
                    main.append((n, variants, w, False, mode, None, 0.5, False))
    for n, inputs, variants in ((2, two[:3], (0, 1)), (3, three, (0, 3, 0))):
        for j, w in enumerate(wirings(n, inputs)):
            if not quick or j % 3 == 0:
                for mode in ("plain", "at-connect"):
                    sims.append((n, tuple(0 for _ in variants), w, False, mode, None, 0.0, True))
    # many nodes, many wires
    for n in (12,):
        ring = tuple((i, i % 2, (i + 1) % n, 0) for i in range(n))
        star = tuple((0, i % 2, i, 0) for i in range(1, n))
        back = tuple((i, 1, i - 1, 1) for i in range(n - 1, 0, -1))
        for w in (ring, ring[:-1], star, back, ring[:-1] + back):
            for mode in modes[:4]:
                main.append((n, tuple(i % 4 for i in range(n)), w, False, mode, None, 0.5, False))
        sims.append((n, tuple(0 for i in range(n)), ring[:-1], False, "plain", None, 0.0, True))
    ids = [(g, how) for n in (1, 2, 3, 4) for g in itertools.product((None, 0, 1, 2, 5), repeat=n) for how in ("init", "list", "one-by-one", "created")
           if len([i for i in g if i is not None]) == len({i for i in g if i is not None})]
    # an automatic id is given before later ids are known: only the unambiguous one-by-one histories
    def ok(g, how):
        if how in ("init", "list"):
            return True
        seen = False
        for i in g:
            if i is None:
                seen = True
            elif seen:
                return False
        return True
    ids = [s for s in ids if ok(*s)]
    ids += [(g, how) for g in ((None,) * 12, (11,) + (None,) * 11, (10, 2, 1, 20) + (None,) * 8) for how in ("init", "list", "one-by-one", "created")]
    return [core.Suite("wirings", main, run), core.Suite("initial-condition", sims, run), core.Suite("ids", ids, run_ids)]


if __name__ == "__main__":
    core.main(
        "C20", build,
        {"quick": "every wiring of 2 nodes with 4 inputs (3^4, two node libraries) and of 3 nodes with 3 inputs (5^3, two libraries), in 2 connection orders, scalar and vector connections, plain / model-only / intermediary nodes at connection / inserted afterwards / twice / between two connections, every single connection removed; every wiring of 1 and 2 nodes in which a node feeds itself; chains, rings, stars and two-way chains of 12 nodes; refused connections at every stage; simulated initial conditions of every third wiring; every assignment of given and automatic ids to up to 4 nodes",
         "thorough": "all connection orders of up to 3 wires, 3 nodes with 5 inputs, 4 nodes with 4 inputs, every wiring simulated"},
        ["equations are compared by solving the composed algebraic system at two generic points"],
    )
