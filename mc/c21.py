"""C21: the distributed methods solve the network's problem: what each node is given, when, and what the whole converges to."""
import contextlib
import itertools
import random
from unittest import mock

from . import core, dist as D, transcribe as T
from .core import require

SOLVER = dict(discretization_scheme="collocation", initial_guess_heuristic="problem_info")


def make(cfg):
    DAL, BJ, IN = D.modules()
    from yaocptool.methods import DirectMethod

    net, nodes, specs, named = D.build(cfg["wires"], cfg["nodes"], cfg.get("inter"), cfg.get("grouped", False), cfg.get("guess", False), cfg.get("t_0", 0.0), cfg.get("ids"), cfg.get("same_names", False), cfg.get("share", False))
    blocks = None
    if cfg.get("blocks"):
        # a list of lists of positions among net.nodes, in the order of creation
        allnodes = list(net.nodes)
        blocks = {k: [allnodes[i] for i in b] for k, b in enumerate(cfg["blocks"])}
    opts = dict(degree=cfg["d"], finite_elements=cfg["n"], distributed=cfg.get("distributed", False), block_choice_method=cfg.get("choice", "cyclic"))
    opts.update(cfg["opts"])
    opts["al_options"] = dict(cfg["al"])
    m = (BJ if cfg.get("jacobi") else DAL)(net, DirectMethod, solution_method_options=dict(SOLVER, degree_control=cfg["d"]), blocks=blocks, options=opts)
    return net, nodes, specs, named, m


def check_blocks(net, m):
    flat = [nd for b in m.blocks.values() for nd in b]
    require(len(flat) == len(net.nodes) and set(flat) == set(net.nodes), "blocks-partition", lambda: "blocks %s of the nodes %s" % (m.blocks, list(net.nodes)))
    for b in m.blocks.values():
        for a, c in itertools.permutations(b, 2):
            require((a, c) not in net.connections, "blocks-adjacent", lambda: "%s and %s are connected and are in one block" % (a, c))


class Ref:
    """Reference of the method: who is solved, with what, and how the multipliers and penalties move."""

    def __init__(self, cfg, net, nodes, specs, named, m, tr):
        self.cfg, self.net, self.m, self.tr = cfg, net, m, tr
        self.n, self.d = cfg["n"], cfg["d"]
        self.jac = cfg.get("jacobi", False)
        self.spec = dict(zip(nodes, specs))
        self.nodes = nodes
        # every wire of the graph: (source node, output name, target node, input name)
        self.wires = []
        for a, b in net.connections:
            e = net.connections[a, b]
            for k in range(e["y"].numel()):
                tag = lambda nd, v: v.name() if nd in self.spec else "%s#%d" % (v.name(), k)  # an intermediary node may have equal names
                self.wires.append((a, tag(a, e["y"].nz[k]), b, tag(b, e["u"].nz[k])))
        self.guess = {}
        for a, y, b, u in self.wires:
            self.guess[(a, y)] = self.spec[a].guess_of(y) if a in self.spec else 0.0
            self.guess[(b, u)] = self.spec[b].guess_of(u) if b in self.spec else 0.0
        self.last = {}  # node -> {name: [[value per point] per element]} of the last successful solution
        self.last_x = {}
        self.last_f = {}
        zero = lambda: [[0.0] * self.d for _ in range(self.n)]
        mu0 = float(cfg["al"].get("mu_0", 1.0))
        self.nu = {(w, s): zero() for w in self.wires for s in ("in", "out")}
        self.mu = {(w, s): mu0 for w in self.wires for s in ("in", "out")}
        self.err = {}
        self.sig_at_update = {}
        self.calls = {nd: 0 for nd in net.nodes}
        self.outer = self.inner = 0
        self.block_iterations = 0
        self.last_obj = None
        self.orders = list(cfg.get("orders", ()))
        self.finished = False
        self.errors = {}
        self.log = []
        self.start_inner()

    # -- schedule
    def start_inner(self):
        bl = list(self.m.blocks.values())
        # a drawn order becomes known as the blocks are visited
        self.queue = [list(b) for b in bl] if self.cfg.get("choice", "cyclic") == "cyclic" else [None] * len(bl)
        self.visited = []
        self.at = 0
        self.pending = self.queue[0] and list(self.queue[0])

    seq_pos = 0

    def max_inner(self):
        o = self.cfg["opts"]
        k = o.get("max_iter_inner", 4)
        if self.outer == 0 and o.get("max_iter_inner_first") is not None:
            return max(k, o["max_iter_inner_first"])
        return k

    def begin(self, node):
        require(not self.finished, "solved-after-the-end", lambda: "%s" % node)
        if self.pending is None:
            k = next(i for i, b in enumerate(self.m.blocks.values()) if node in b)
            self.visited.append(k)
            if self.cfg["choice"] == "sample":
                require(len(set(self.visited)) == len(self.visited), "sample-repeats", lambda: "block %d is solved again in an iteration: %s" % (k, self.visited))
            self.queue[self.at] = list(list(self.m.blocks.values())[k])
            self.pending = list(self.queue[self.at])
        require(node in self.pending, "block-order", lambda: "%s is solved while the block is %s (still to solve: %s)" % (node, self.queue[self.at], self.pending))
        if not self.cfg.get("distributed"):
            require(node is self.pending[0], "block-order", lambda: "%s is solved before %s" % (node, self.pending[0]))

    def end(self, node, data, x, f, ok):
        self.pending.remove(node)
        if ok:
            self.stage = getattr(self, "stage", {})
            self.stage[node] = (data, x, f)
            if not self.cfg.get("distributed"):
                self.commit()
        if not self.pending:
            self.commit()
            self.at += 1
            if self.at < len(self.queue):
                self.pending = self.queue[self.at] and list(self.queue[self.at])
            else:
                self.log.append(tuple(self.visited))
                self.end_inner()

    def commit(self):
        for nd, (data, x, f) in getattr(self, "stage", {}).items():
            self.last[nd], self.last_x[nd], self.last_f[nd] = data, x, f
        self.stage = {}

    def end_inner(self):
        self.tr.step()
        self.inner += 1
        self.seq_pos += 1
        self.block_iterations += len(self.m.blocks)
        obj = sum(self.last_f.values())
        stop = self.last_obj is not None and obj > (1 - self.cfg["opts"].get("inner_loop_tol", 1e-4)) * self.last_obj
        self.last_obj = obj
        if stop or self.inner >= self.max_inner():
            self.inner_count = self.inner
            self.update()
            self.inner, self.last_obj = 0, None
            self.outer += 1
            mx = max([e for v in self.errors.values() for e in v] + [-1])
            if mx < self.cfg["opts"].get("abs_tol", 1e-6) or self.outer >= self.cfg["opts"]["max_iter_outer"]:
                self.finished = True
                return
        self.start_inner()

    # -- signals
    def sig(self, node, name):
        if node in self.last:
            return self.last[node][name]
        return [[self.guess[(node, name)]] * self.d for _ in range(self.n)]

    def target(self, w, side, own=None):
        """what the node's own signal is compared with: the other end, or the mean of both ends (Jacobi)"""
        a, y, b, u = w
        Y, U = self.sig(a, y), self.sig(b, u)
        if self.jac:
            return [[(p + q) / 2 for p, q in zip(r, s)] for r, s in zip(Y, U)]
        return Y if side == "in" else U

    def sides(self, node):
        return [(w, "in") for w in self.wires if w[2] is node] + [(w, "out") for w in self.wires if w[0] is node]

    def residual(self, key, el, j, value):
        w, side = key
        t = self.target(w, side)[el][j]
        return value - t if side == "in" else t - value

    def update(self):
        """multipliers: nu + mu * residual with the latest signals of both ends; then the penalties by the rule"""
        al = self.cfg["al"]
        errs = {}
        for node in self.net.nodes:
            if node not in self.last:
                continue
            for key in self.sides(node):
                own = self.last[node][key[0][3] if key[1] == "in" else key[0][1]]
                r = [[self.residual(key, el, j, own[el][j]) for j in range(self.d)] for el in range(self.n)]
                errs[key] = max(abs(v) for row in r for v in row)
                if al.get("only_update_if_improve") and key in self.err and not errs[key] < self.err[key]:
                    continue
                self.nu[key] = [[v + self.mu[key] * q for v, q in zip(a, b)] for a, b in zip(self.nu[key], r)]
        rule = al.get("mu_update_rule", "bounded-increase")
        mx, beta = float(al.get("mu_max", 1e4)), float(al.get("beta", 4.0))
        if rule == "bounded-increase":
            for k in errs:
                self.mu[k] = min(mx, self.mu[k] * beta)
        elif rule == "primal":
            for k, e in errs.items():
                if k in self.err and not e <= 0.5 * self.err[k]:
                    self.mu[k] = min(mx, self.mu[k] * beta)
        elif rule == "primal-dual":
            gamma = float(al.get("gamma", 1.2))
            block = {nd: i for i, b in self.m.blocks.items() for nd in b}
            s = -float("inf")
            for node in self.last:
                if node in self.sig_at_update:
                    for w, side in self.sides(node):
                        if side == "in" and block[w[0]] >= block[node]:
                            new, old = self.sig(w[0], w[1]), self.sig_at_update[node][w]
                            s = max(s, max(abs(p - q) for a, b in zip(new, old) for p, q in zip(a, b)))
            for node in self.last:
                self.sig_at_update[node] = {w: [list(r) for r in self.sig(w[0], w[1])] for w, side in self.sides(node) if side == "in"}
            r = max(errs.values())
            for node in self.last:
                for k in self.sides(node):
                    if r > gamma * s:
                        self.mu[k] = self.mu[k] * beta
                    elif s > gamma * r:
                        self.mu[k] = self.mu[k] / float(al.get("beta_decrease", 3.0))
        if rule in ("primal", "bounded-increase", "constant") and self.cfg.get("distributed"):
            top = max(self.mu[k] for node in self.net.nodes for k in self.sides(node) if node in self.net.nodes)
            for k in self.mu:
                self.mu[k] = top
        self.err.update(errs)
        self.errors = {}
        for k, e in errs.items():
            self.errors.setdefault(k[0][2] if k[1] == "in" else k[0][0], []).append(e)

    # -- what a node is given
    def check_nlp(self, node, solver, call):
        s, n, d = self.spec[node], self.n, self.d
        X, Y, U, _, _, _ = T.unpack(solver, call["x"])
        model = solver.problem.model
        un, yn = [model.u.nz[i].name() for i in range(model.u.numel())], [model.y.nz[i].name() for i in range(model.y.numel())]
        require(sorted(un) == sorted([s.names["w"]] + s.names["v"]) and yn == s.names["z"], "node-variables", lambda: "%s %s" % (un, yn))
        taus = [0.0] + T.radau(d)
        dt = D.TF / n
        cons, data = [], {q: [[0.0] * d for _ in range(n)] for q in un + yn}
        for el in range(n):
            if el:
                cons += [("eq", a - b) for a, b in zip(X[el - 1][-1], X[el][0])]
            for j in range(d):
                u = dict(zip(un, U[el][j]))
                y = dict(zip(yn, Y[el][j])) if yn else {}
                for q, v in {**u, **y}.items():
                    data[q][el][j] = v
                x = X[el][j + 1][0]
                v = [u[q] for q in s.names["v"]]
                L = s.L(x, u[s.names["w"]], v)
                for key in self.sides(node):
                    (a, yo, b, ui), side = key
                    r = self.residual(key, el, j, u[ui] if side == "in" else y[yo])
                    L += self.nu[key][el][j] * r + 0.5 * self.mu[key] * r * r
                dx = T.lagrange_d(taus, X[el], taus[j + 1])
                cons += [("eq", dx[0] - dt * s.f(x, u[s.names["w"]], v)), ("eq", dx[1] - dt * L)]
                cons += [("eq", q) for q in s.g(x, u[s.names["w"]], [y[q] for q in s.names["z"]])]
        cons += [("eq", X[0][0][0] - s.x0), ("eq", X[0][0][1])]
        got = list(zip(T.floats(call["g"]), T.floats(solver.opt_problem.g_lb), T.floats(solver.opt_problem.g_ub)))
        T.match_constraints(got, cons, 1e-6, "node")
        f = X[-1][-1][-1]
        require(abs(float(call["f"]) - f) <= 1e-7 * (1 + abs(f)), "objective", lambda: "%s %s" % (call["f"], f))
        if node in self.last_x:
            g = T.floats(call["initial_guess"]) if call["initial_guess"] is not None else None
            require(g == T.floats(self.last_x[node]), "warm-start", lambda: "%s starts from %s" % (node, g))
        return data, f

    def check_intermediary(self, node, res):
        """closed form minimiser of its augmented Lagrangian"""
        data = {}
        for w in [w for w in self.wires if w[2] is node]:
            pass
        model = node.problem.model
        ins = [w for w in self.wires if w[2] is node]
        outs = [w for w in self.wires if w[0] is node]
        require(len(ins) == len(outs), "intermediary", "")
        for wi, wo in zip(ins, outs):
            val = [[0.0] * self.d for _ in range(self.n)]
            for el in range(self.n):
                for j in range(self.d):
                    y, u = self.sig(wi[0], wi[1])[el][j], self.sig(wo[2], wo[3])[el][j]
                    m1, m2 = self.mu[(wi, "in")], self.mu[(wo, "out")]
                    val[el][j] = (m1 * y + m2 * u + self.nu[(wo, "out")][el][j] - self.nu[(wi, "in")][el][j]) / (m1 + m2)
            data[wi[3]] = data[wo[1]] = val
        k = 0
        for kind, names in (("u", [w[3] for w in ins]), ("y", [w[1] for w in outs])):
            v = getattr(res, kind + "_data")["values"]
            for el in range(self.n):
                for j in range(self.d):
                    got = T.floats(v[el][j])
                    exp = [data[q][el][j] for q in names]
                    require(len(got) == len(exp) and all(abs(a - b) <= 1e-8 * (1 + abs(b)) for a, b in zip(got, exp)), "intermediary-" + kind,
                            lambda: "%s element %d point %d: %s, the minimiser is %s" % (node, el, j, got, exp))
        return data


def play(cfg, tr, choices=(), log=None):
    """One execution with the stand-in solver under one schedule; returns the choices that were available."""
    import casadi as ca
    from yaocptool.optimization.abstract_optimization_problem import AbstractOptimizationProblem

    sched = D.Scheduler(choices)
    D.SCHED[0] = sched
    net, nodes, specs, named, m = make(cfg)
    if not cfg.get("blocks"):
        check_blocks(net, m)
    else:
        require({k: list(v) for k, v in m.blocks.items()} == {k: [list(net.nodes)[i] for i in b] for k, b in enumerate(cfg["blocks"])}, "blocks-given", "")
    _, _, IN = D.modules()
    ref = Ref(cfg, net, nodes, specs, named, m, tr)
    fails = set(map(tuple, cfg.get("fails", ())))

    def owner(problem):
        for nd in net.nodes:
            sm = nd.solution_method
            sm = sm._inner if isinstance(sm, D.Poison) else sm
            if sm is not None and sm.ocp_solver is not None and sm.ocp_solver.opt_problem is problem:
                return nd, sm
        require(False, "unknown-problem", "")

    def fake(self, initial_guess=None, call_dict=None, p=None, lam_x=None, lam_g=None):
        nd, sm = owner(self)
        ref.begin(nd)
        k = ref.calls[nd]
        ref.calls[nd] += 1
        i0 = nodes.index(nd)
        scale = cfg["scales"][k % len(cfg["scales"])] * (cfg["node_scales"][i0] if cfg.get("node_scales") else 1.0)
        rec = T.Recorder(self, lambda i: scale * T.gen(i + 17 * i0 + 43 * k))
        out = rec(initial_guess=initial_guess, call_dict=call_dict, p=p, lam_x=lam_x, lam_g=lam_g)
        ok = (i0, k) not in fails
        out["stats"]["success"] = ok
        data, f = ref.check_nlp(nd, sm.ocp_solver, rec.calls[-1])
        ref.end(nd, data, rec.calls[-1]["x"], f, ok)
        tr.step()
        return out

    orig = IN.solve

    def inter_solve(self, *a, **k):
        nd = next(nd for nd in net.nodes if (nd.solution_method._inner if isinstance(nd.solution_method, D.Poison) else nd.solution_method) is self)
        ref.begin(nd)
        res = orig(self, *a, **k)
        data = ref.check_intermediary(nd, res)
        ref.end(nd, data, None, 0.0, True)
        tr.step()
        return res

    def rnd(population, *a, k=1, **kw):
        bl = list(population)
        seq = cfg.get("orders") or [list(range(len(bl)))]
        return [bl[i] for i in seq[ref.seq_pos % len(seq)]]

    def perm(population, *a, **kw):
        r = rnd(population)
        return r if len({id(b) for b in r}) == len(r) else list(population)

    with mock.patch.object(AbstractOptimizationProblem, "solve", fake), mock.patch.object(IN, "solve", inter_solve), contextlib.ExitStack() as st:
        if cfg.get("orders"):
            st.enter_context(mock.patch.object(random, "sample", perm))
            st.enter_context(mock.patch.object(random, "choices", rnd))
        res = m.solve()
    if log is not None:
        log += ref.log
    require(ref.finished, "stopped-early", lambda: "stopped in outer iteration %d of %s" % (ref.outer, cfg["opts"]))
    require(set(res.results) == set(ref.last), "results", lambda: "%s, successful: %s" % (res.results.keys(), ref.last.keys()))
    for nd, x in ref.last_x.items():
        if x is not None:
            require(T.floats(res.results[nd].raw_solution_dict["x"]) == T.floats(x), "result-of-node", lambda: "%s" % nd)
    f = sum(ref.last_f.values())
    require(abs(float(res.objective) - f) <= 1e-7 * (1 + abs(f)), "objective-sum", lambda: "%s %s" % (res.objective, f))
    it = res.number_of_iterations
    require((it["inner"], it["outer"], it["block_iterations"]) == (ref.inner_count - 1, ref.outer - 1, ref.block_iterations), "iterations", lambda: "%s, reference %s" % (it, (ref.inner_count - 1, ref.outer - 1, ref.block_iterations)))
    got = sorted(float(v) for v in res.constraint_violations.to_numpy().ravel() if v == v)
    exp = sorted(e for v in ref.errors.values() for e in v)
    require(len(got) == len(exp) and all(abs(a - b) <= 1e-6 * (1 + abs(b)) for a, b in zip(got, exp)), "violations", lambda: "%s, reference %s" % (got, exp))
    if cfg.get("distributed"):
        require(all(q.__dict__["dead"] for q in sched.proxies), "proxies-left", "")
    tr.state((repr(sorted(cfg.items(), key=lambda q: q[0])), tuple(choices)))
    return sched.taken


def run(cfg, tr):
    """All schedules of the proxies' tasks with at most cfg['delays'] deviations from first-come-first-served."""
    stack = [()]
    while stack:
        pre = stack.pop()
        taken = play(cfg, tr, pre)
        tr.note("schedules")
        if not cfg.get("delays"):
            break
        if sum(1 for c in pre if c) >= cfg["delays"]:
            continue
        for i in range(len(pre), min(len(taken), cfg.get("window", 12))):
            for alt in range(1, taken[i][1]):
                stack.append(tuple([c for c, _ in taken[:i]]) + (alt,))


def run_drawn(cfg, tr):
    """With the library's own random numbers: every block is drawn at every position; 'choices' draws with, 'sample' without replacement."""
    log = []
    for seed in range(cfg["seeds"]):
        random.seed(seed)
        play(cfg, tr, (), log)
    k = len(cfg["blocks"])
    for pos in range(k):
        seen = {o[pos] for o in log}
        require(seen == set(range(k)), "drawn-blocks", lambda: "position %d: only the blocks %s in %d draws" % (pos, seen, len(log)))
    reps = sum(1 for o in log if len(set(o)) < k)
    require((reps > 0) == (cfg["choice"] == "choices"), "replacement", lambda: "%s: %d of %d draws repeat a block" % (cfg["choice"], reps, len(log)))


def run_converge(cfg, tr):
    """With the real solver: the optimum of the composed problem, with the signals equal at both ends."""
    import random as _r

    D.SCHED[0] = D.Scheduler()
    _r.seed(3)
    J, X, W = D.central(cfg["wires"], cfg["nodes"], cfg["n"], cfg["d"], share=cfg.get("share", False))
    net, nodes, specs, named, m = make(cfg)
    if not cfg.get("blocks"):
        check_blocks(net, m)
    res = m.solve()
    tr.step()
    viol = max(float(v) for v in res.constraint_violations.to_numpy().ravel() if v == v)
    require(viol < 2e-5, "violation", lambda: "%r after %s" % (viol, res.number_of_iterations))
    require(abs(float(res.objective) - J) <= 2e-4 * (1 + abs(J)), "optimum", lambda: "%s, the composed problem has %r" % (res.objective, J))
    for i, nd in enumerate(nodes):
        r = res.results[nd]
        for el in range(cfg["n"]):
            got = [T.floats(q)[0] for q in r.x_data["values"][el]]
            require(len(got) == cfg["d"] + 1 and all(abs(a - b) <= 2e-3 for a, b in zip(got, X[i][el])), "optimal-state", lambda: "%s element %d: %s, optimum %s" % (nd, el, got, X[i][el]))
    for a, y, b, u in named:
        ya = res.results[nodes[a]].get_variable("y", res.results[nodes[a]].y_names.index(y))
        ub = res.results[nodes[b]].get_variable("u", res.results[nodes[b]].u_names.index(u))
        for el in range(cfg["n"]):
            for j in range(cfg["d"]):
                require(abs(float(ya[el][j]) - float(ub[el][j])) < 1e-4, "signals-differ", lambda: "%s -> %s: %s %s" % (y, u, ya[el][j], ub[el][j]))
    tr.state(repr(sorted(cfg.items(), key=lambda q: q[0])))


def graphs(n, most):
    """all simple digraphs without isolated nodes, up to `most` edges"""
    pairs = list(itertools.permutations(range(n), 2))
    for k in range(1, most + 1):
        for e in itertools.combinations(pairs, k):
            if {v for p in e for v in p} == set(range(n)):
                yield e


def partitions(items):
    if not items:
        yield []
        return
    first, rest = items[0], items[1:]
    for p in partitions(rest):
        yield [[first]] + p
        for i in range(len(p)):
            yield p[:i] + [[first] + p[i]] + p[i + 1:]


def build(tier):
    from yaocptool import config

    config.SOLVER_OPTIONS["nlpsol_options"]["ipopt.linear_solver"] = "mumps"
    quick = tier == "quick"
    sched, conv, drawn = [], [], []
    g2 = list(graphs(2, 2)) + [((0, 1), (0, 1)), ((0, 1), (1, 0), (0, 1))]
    g3 = list(graphs(3, 6))
    base = dict(n=2, d=2, scales=[1.0, 0.7, 0.5, 0.9, 0.55, 0.3, 1.3, 0.8, 0.2], opts=dict(max_iter_inner=3, max_iter_outer=3, inner_loop_tol=1e-4, abs_tol=1e-9), al=dict(mu_update_rule="bounded-increase"))
    rules = [dict(mu_update_rule=r, mu_0=mu, mu_max=20.0, beta=3.0, beta_decrease=2.0) for r, mu in (("constant", 2.0), ("bounded-increase", 1.0), ("primal", 1.5), ("primal-dual", 1.0))]
    small = [g for g in g3 if len(g) <= 3]
    for g in g2 + (small if quick else g3):
        n = max(v for e in g for v in e) + 1
        for distributed in (False, True):
            for inter in (None, "at", "after"):
                for jac in (False, True):
                    if jac and inter:
                        continue
                    if quick and n == 3 and inter == "at" and len(g) == 3:
                        continue
                    for grouped in (False, True):
                        if grouped and (len(set(g)) == len(g)):
                            continue
                        for al in rules if (n == 2 or not quick) else [rules[(len(sched) // 3) % 4]]:
                            sched.append(dict(base, nodes=n, wires=g, distributed=distributed, inter=inter, jacobi=jac, grouped=grouped, al=al, guess=bool(len(sched) % 2), t_0=0.5 * (len(sched) % 3)))
    # block structures and orders, chosen and drawn
    for g in (((0, 1), (1, 0)), ((0, 1), (1, 2)), ((0, 1), (1, 2), (2, 0))):
        n = max(v for e in g for v in e) + 1
        for part in partitions(list(range(n))):
            if any((a, b) in g for q in part for a in q for b in q):
                continue
            for order in itertools.permutations(part):
                for distributed in (False, True):
                    sched.append(dict(base, nodes=n, wires=g, blocks=[list(q) for q in order], distributed=distributed, al=rules[0]))
            k = len(part)
            perms = [list(p) for p in itertools.permutations(range(k))]
            for o1, o2 in itertools.product(perms, repeat=2):
                sched.append(dict(base, nodes=n, wires=g, blocks=part, choice="sample", orders=[o1, o2], al=rules[1]))
            for draw in itertools.product(range(k), repeat=k):
                for distributed in (False, True):
                    sched.append(dict(base, nodes=n, wires=g, blocks=part, choice="choices", orders=[list(range(k)), list(draw)], al=rules[0], distributed=distributed))
            for order in itertools.permutations(part):
                for gamma, sc in itertools.product((1.2, 3.0, 8.0), (base["scales"], [0.3, 1.0, 2.0, 0.1])):
                    sched.append(dict(base, nodes=n, wires=g, blocks=[list(q) for q in order], distributed=bool(len(sched) % 2), al=dict(rules[3], gamma=gamma), scales=sc))
        # blocks with connected nodes in them
        for part in partitions(list(range(n))):
            if not any((a, b) in g for q in part for a in q for b in q):
                continue
            for order in itertools.permutations(part):
                for al in rules + [dict(rules[3], gamma=g_) for g_ in (3.0, 8.0)]:
                    for distributed in (False, True):
                        for jac in (False, True):
                            sched.append(dict(base, nodes=n, wires=g, blocks=[list(q) for q in order], distributed=distributed, jacobi=jac, al=al))
        for part in partitions(list(range(n))):
            if len(part) > 1:
                for choice in ("sample", "choices"):
                    drawn.append(dict(base, nodes=n, wires=g, blocks=part, choice=choice, al=rules[0], seeds=10, distributed=bool(len(drawn) % 2)))
    # stopping when the largest violation is below the tolerance
    for g in (((0, 1), (1, 0)), ((0, 1), (1, 2)), ((0, 1), (0, 1))):
        n = max(v for e in g for v in e) + 1
        for tol in [0.02, 0.05, 0.1, 0.2, 0.3, 0.5, 0.8] + ([0.07, 0.13, 0.16, 0.24, 0.27, 0.35, 0.4, 0.45, 0.6, 0.7] if n == 2 else []):
            for sc in ([1.0, 0.5, 0.1, 0.05], [0.4, 0.3, 0.2, 0.6], [0.1, 1.0, 0.3, 0.05, 0.2]):
                for distributed in (False, True):
                    sched.append(dict(base, nodes=n, wires=g, scales=sc, distributed=distributed, grouped=len(set(g)) < len(g), opts=dict(base["opts"], max_iter_outer=4, max_iter_inner=1, abs_tol=tol)))
    # penalties that grow apart
    for g in (((0, 1), (1, 0)), ((0, 1), (0, 1)), ((0, 1), (0, 2)), ((0, 1), (1, 2)), ((0, 1), (0, 1), (0, 1)), ((0, 1), (1, 2), (2, 0))):
        n = max(v for e in g for v in e) + 1
        for sc in itertools.product((0.2, 1.0), repeat=4):
            for distributed in (False, True):
                sched.append(dict(base, nodes=n, wires=g, scales=list(sc), distributed=distributed, al=dict(rules[2], mu_max=1e3), opts=dict(base["opts"], max_iter_outer=6, max_iter_inner=1)))
        if n == 2 or g == ((0, 1), (1, 2)):
            for sc in itertools.product((0.2, 1.0), repeat=3):
                sched.append(dict(base, nodes=n, wires=g, scales=list(sc), inter="after" if sum(sc) < 2 else "at", al=dict(rules[2], mu_max=1e3), opts=dict(base["opts"], max_iter_outer=6, max_iter_inner=1)))
    # multipliers that only move when the violation shrinks
    for g in (((0, 1), (1, 0)), ((0, 1), (0, 1)), ((0, 1), (0, 1), (0, 1)), ((0, 1), (0, 2)), ((0, 1), (1, 2)), ((0, 1), (1, 2), (2, 0))):
        n = max(v for e in g for v in e) + 1
        for sc in itertools.product((0.3, 1.0), repeat=3):
            for inter, jac, grouped in ((None, False, False), ("after", False, False), ("after", False, True), ("at", False, True), (None, True, False)):
                if not (grouped and len(set(g)) == len(g)) and not (quick and n == 3 and sc[0] == sc[1]):
                    sched.append(dict(base, nodes=n, wires=g, scales=list(sc), inter=inter, jacobi=jac, grouped=grouped, distributed=bool(len(sched) % 2), al=dict(rules[len(sched) // 2 % 3], only_update_if_improve=True),
                                      opts=dict(base["opts"], max_iter_outer=5, max_iter_inner=1)))
    # residuals that one of the nodes dominates
    for g in (((0, 1), (1, 0)), ((0, 1), (1, 2)), ((0, 1), (0, 2))):
        n = max(v for e in g for v in e) + 1
        for ns in itertools.product((0.1, 1.0, 4.0), repeat=n):
            for gamma in (1.2, 3.0):
                for distributed, inter in ((False, None), (True, None), (False, "after")) if n == 2 or not quick else ((bool(len(sched) % 2), None),):
                    sched.append(dict(base, nodes=n, wires=g, node_scales=ns, distributed=distributed, inter=inter, al=dict(rules[3], gamma=gamma), opts=dict(base["opts"], max_iter_outer=3, max_iter_inner=1)))
    # one output feeding several inputs, of one or several nodes
    for g in (((0, 1), (0, 1)), ((0, 1), (0, 1), (1, 0)), ((0, 1), (0, 2)), ((0, 1), (0, 2), (1, 0)), ((0, 1), (0, 1), (0, 2))):
        n = max(v for e in g for v in e) + 1
        for al in rules:
            for distributed, inter, jac, grouped in itertools.product((False, True), (None, "at", "after"), (False, True), (False, True)):
                if not (jac and inter) and not (grouped and len(set(g)) == len(g)):
                    sched.append(dict(base, nodes=n, wires=g, distributed=distributed, inter=inter, jacobi=jac, grouped=grouped, share=True, al=al, guess=bool(len(sched) % 2)))
    # nodes whose variables have the same names
    for g in g2 + (small if quick else g3):
        n = max(v for e in g for v in e) + 1
        for al in rules if n == 3 else rules[2:]:
            for distributed in (False, True):
                for inter in (None, "after"):
                    if al is rules[3] or not inter:
                        sched.append(dict(base, nodes=n, wires=g, distributed=distributed, inter=inter, same_names=True, grouped=len(set(g)) < len(g), al=al, guess=True))
    # failing node solutions
    for g in (((0, 1),), ((0, 1), (1, 0)), ((0, 1), (1, 2))):
        n = max(v for e in g for v in e) + 1
        calls = [(i, k) for i in range(n) for k in range(3)]
        for r in (1, 2):
            for fails in itertools.combinations(calls, r):
                for distributed in (False, True):
                    if all(sum(1 for i, k in fails if i == nd and k == 0) == 0 for nd in range(n)) or True:
                        sched.append(dict(base, nodes=n, wires=g, fails=fails, distributed=distributed, al=rules[0], guess=True))
    # node ids, first inner iterations, other discretisations
    for ids in ((1, 2), (5, 3), (7, 0)):
        for distributed in (False, True):
            sched.append(dict(base, nodes=2, wires=((0, 1), (1, 0)), ids=ids, distributed=distributed))
    for first, inner, tol in itertools.product((None, 1, 4), (1, 2, 3), (1e-4, 0.6, -2.0)):
        sched.append(dict(base, nodes=2, wires=((0, 1), (1, 0)), opts=dict(max_iter_inner=inner, max_iter_inner_first=first, max_iter_outer=2, inner_loop_tol=tol, abs_tol=1e-9)))
    for nn, d in itertools.product((1, 2, 3), (1, 2, 3, 4)):
        for inter in (None, "after"):
            sched.append(dict(base, nodes=2, wires=((0, 1), (1, 0)), n=nn, d=d, inter=inter))
    for nn, d, inter, jac, distributed in ((11, 1, None, False, False), (11, 1, "after", False, True), (12, 2, None, True, False), (12, 2, None, False, True), (1, 6, "at", False, False)):
        sched.append(dict(base, nodes=2, wires=((0, 1), (1, 0)), n=nn, d=d, inter=inter, jacobi=jac, distributed=distributed))
        sched.append(dict(base, nodes=2, wires=((0, 1), (0, 1)), grouped=True, n=nn, d=d, inter=inter, jacobi=jac, distributed=distributed, al=rules[2]))
    chain = tuple((i, i + 1) for i in range(11))
    for distributed, inter, jac in ((False, None, False), (True, None, False), (False, "after", False), (False, None, True)):
        sched.append(dict(base, nodes=12, wires=chain, n=1, d=1, inter=inter, jacobi=jac, distributed=distributed, opts=dict(base["opts"], max_iter_outer=2, max_iter_inner=2)))
    # interleavings of the tasks of the node processes
    for g, part in ((((0, 1), (0, 2)), [[0], [1, 2]]), (((0, 1), (1, 2)), [[0, 2], [1]]), (((1, 0), (2, 0)), [[1, 2], [0]])):
        for al in rules:
            sched.append(dict(base, nodes=3, wires=g, blocks=part, distributed=True, al=al, delays=1 if quick else 2, window=16 if quick else 30, opts=dict(base["opts"], max_iter_outer=2, max_iter_inner=2)))
    copts = dict(max_iter_inner=8, max_iter_outer=30, abs_tol=5e-6, inner_loop_tol=1e-7)
    for g in (((0, 1), (0, 1)), ((0, 1), (0, 2))):
        for inter, jac in ((None, False), ("after", False), (None, True)):
            conv.append(dict(nodes=max(v for e in g for v in e) + 1, wires=g, n=2, d=2, inter=inter, jacobi=jac, distributed=False, choice="cyclic", opts=copts, al=dict(mu_0=1.0, mu_update_rule="constant"), grouped=len(set(g)) < len(g), share=True))
    for g in g2 + (small if quick else g3):
        n = max(v for e in g for v in e) + 1
        for inter, jac in ((None, False), ("after", False), (None, True)):
            for dd in (False, True):
                if dd and quick and len(g) > 2:
                    continue
                for choice in ("cyclic", "sample"):
                    if choice == "sample" and (dd or (quick and n == 3)):
                        continue
                    conv.append(dict(nodes=n, wires=g, n=2, d=2, inter=inter, jacobi=jac, distributed=dd, choice=choice, opts=copts, al=dict(mu_0=1.0, mu_update_rule="constant"), grouped=len(set(g)) < len(g)))
    return [core.Suite("steps", sched, run), core.Suite("drawn", drawn, run_drawn), core.Suite("converge", conv, run_converge)]


if __name__ == "__main__":
    core.main(
        "C21", build,
        {"quick": "all digraphs without isolated nodes on 2 nodes and on 3 nodes with up to 3 edges, serial and distributed, plain / intermediary / Jacobi, 4 penalty rules, multipliers updated always or only on improvement; all block partitions and orders and draws of 3 graphs; all single and double failures of node solutions; up to 12 elements, degree 6, a chain of 12 nodes; interleavings of the node processes with 1 deviation from first come first served; convergence with the real solver",
         "thorough": "digraphs with up to 6 edges, all rules on 3 nodes, 2 deviations"},
        ["erised.Proxy (not installed) is replaced by a stand-in with one task queue per node process", "the NLP solver is replaced by one returning generic points, except in the convergence suite"],
    )
