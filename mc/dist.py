"""Small networks, a schedulable stand-in for erised.Proxy, and the reference of the distributed augmented Lagrangian."""
import itertools
import sys
import types

from . import transcribe as T
from .core import require

TF = 1.0


# ---------------------------------------------------------------- the stand-in for the process proxies
class Scheduler:
    """Runs the tasks of the proxies; the order between proxies is chosen by the list of choices."""

    def __init__(self, choices=()):
        self.choices, self.taken, self.proxies = list(choices), [], []

    def pick(self, n):
        k = self.choices[len(self.taken)] if len(self.taken) < len(self.choices) else 0
        self.taken.append((k, n))
        return k

    def run_until(self, done):
        while not done():
            ready = [q for q in self.proxies if q.queue]
            require(ready, "deadlock", "waiting for a result that nothing computes")
            q = ready[self.pick(len(ready)) if len(ready) > 1 else 0]
            q.queue.pop(0)()


SCHED = [Scheduler()]


class Future:
    def __init__(self):
        self.state, self.value = None, None

    def result(self, timeout=None):
        SCHED[0].run_until(lambda: self.state is not None)
        if self.state == "error":
            raise self.value
        return self.value

    def done(self):
        return self.state is not None


class Remote:
    """A path of attributes on the object of a proxy; calling it, reading or setting it is a task of that proxy."""

    def __init__(self, proxy, path):
        object.__setattr__(self, "_p", (proxy, path))

    def __getattr__(self, name):
        proxy, path = self._p
        return Remote(proxy, path + (name,))

    def __setattr__(self, name, value):
        proxy, path = self._p
        return proxy._submit(lambda: setattr(proxy._resolve(path), name, value))

    def __call__(self, *a, **k):
        proxy, path = self._p
        if path and path[-1] == "retrieve":
            return proxy._submit(lambda: proxy._resolve(path[:-1]))
        return proxy._submit(lambda: proxy._resolve(path)(*a, **k))


class Poison:
    """What stays in this process when the object lives in another one: reading it would read stale data."""

    def __init__(self, inner):
        object.__setattr__(self, "_inner", inner)

    def __getattr__(self, name):
        require(name not in ("solve", "update_parameters", "compute_primal_dual", "set_mu", "mu", "nu", "nu_tilde", "last_violation_error"), "local-object-used",
                "the local copy's %r is used although the node lives in another process" % name)
        return getattr(self._inner, name)


class Proxy:
    def __init__(self, obj=None, *a, **k):
        d = self.__dict__
        d.update(queue=[], _obj=types.SimpleNamespace(**{n: v for n, v in vars(obj).items()}), _orig=obj, dead=False, pending=[])
        obj.solution_method = Poison(obj.solution_method)
        SCHED[0].proxies.append(self)

    def _resolve(self, path):
        o = self._obj
        for n in path:
            o = getattr(o, n)
        return o

    def _submit(self, fn):
        require(not self.__dict__["dead"], "terminated-proxy-used", "")
        f = Future()

        def task():
            try:
                f.value = fn()
                f.state = "ok"
            except BaseException as e:
                f.value, f.state = e, "error"

        self.queue.append(task)
        self.pending.append(f)
        return f

    def wait_all_futures(self):
        for f in self.pending:
            f.result()

    def terminate(self):
        self.__dict__["dead"] = True
        self.queue.clear()

    def __getattr__(self, name):
        return Remote(self, (name,))

    def __setattr__(self, name, value):
        self._submit(lambda: setattr(self._obj, name, value))


def modules():
    """The distributed methods, with the stand-in."""
    m = sys.modules.get("erised")
    if m is None or getattr(m, "Proxy", None) is not Proxy:
        m = types.ModuleType("erised")
        m.Proxy = Proxy
        sys.modules["erised"] = m
    import yaocptool.methods.network.distributedaugmetedlagrangian as d
    import yaocptool.methods.network.bipartite_jacobi_admm as b
    import yaocptool.methods.network.intermediary_node_solution_method as i

    return d.DistributedAugmentedLagrangian, b.BipartiteJacobiADMM, i.IntermediaryNodeSolutionMethod


# ---------------------------------------------------------------- networks
class NodeSpec:
    """x' = a x + w + sum b_k v_k ; z_k = c_k x + d_k w ; L quadratic"""

    def __init__(self, i, n_in, n_out, guess, same_names=False):
        self.i, self.n_in, self.n_out = i, n_in, n_out
        self.a = -(0.5 + 0.2 * i)
        self.b = [0.7 - 0.2 * k for k in range(n_in)]
        self.c = [0.6 + 0.3 * k - 0.1 * i for k in range(n_out)]
        self.dd = [0.2 * k for k in range(n_out)]
        self.x0 = 1.0 + 0.5 * i
        i = 0 if same_names else i  # nodes of one kind use the same names
        self.names = dict(x="x%d" % i, w="w%d" % i, v=["v%d_%d" % (i, k) for k in range(n_in)], z=["z%d_%d" % (i, k) for k in range(n_out)])
        self.guess = guess and n_out > 0  # without algebraic variables there is no y_guess to extend

    def f(self, x, w, v):
        return self.a * x + w + sum(b * q for b, q in zip(self.b, v))

    def g(self, x, w, z):
        return [q - (c * x + d * w) for q, c, d in zip(z, self.c, self.dd)]

    def L(self, x, w, v):
        return (x - 0.3 * self.i) * (x - 0.3 * self.i) + (0.5 + 0.1 * self.i) * w * w + sum(0.1 * (1 + k) * q * q for k, q in enumerate(v))

    def build(self, net, t_0, node_id=None):
        import casadi as ca
        from yaocptool.modelling import OptimalControlProblem, SystemModel

        m = SystemModel(name="N%d" % self.i)
        x = m.create_state(self.names["x"])
        w = m.create_control(self.names["w"])
        v = [m.create_control(q) for q in self.names["v"]]
        z = [m.create_algebraic_variable(q) for q in self.names["z"]]
        m.include_equations(ode=ca.vertcat(self.f(x, w, v)))
        if z:
            m.include_equations(alg=ca.vertcat(*self.g(x, w, z)))
        pr = OptimalControlProblem(model=m, t_0=t_0, t_f=t_0 + TF, x_0=ca.DM([self.x0]), name="P%d" % self.i)
        pr.L = self.L(x, w, v)
        if self.guess:
            pr.y_guess = ca.DM([self.guess_of(q) for q in self.names["z"]]) if z else None
            pr.u_guess = ca.DM([self.guess_of(q) for q in [self.names["w"]] + self.names["v"]])
        return net.create_node(problem=pr, **({} if node_id is None else {"node_id": node_id})), x, w, v, z

    def guess_of(self, name):
        return 0.0 if not self.guess else 0.2 + 0.05 * (len(name) + ord(name[0]) % 7 + int(name[-1]))


def outputs(wires, i, share):
    k = sum(a == i for a, _ in wires)
    return min(k, 1) if share else k


def build(wires, n, inter=None, grouped=False, guess=False, t_0=0.0, ids=None, same_names=False, share=False):
    """wires: (from, to) pairs, each its own output (share: the one output of its source) and input.  Returns net, nodes, specs, wire names."""
    import casadi as ca
    from yaocptool.modelling import Network

    net = Network(name="net", intermediary_nodes=inter == "at")
    specs = [NodeSpec(i, sum(b == i for _, b in wires), outputs(wires, i, share), guess, same_names) for i in range(n)]
    built = [s.build(net, t_0, None if ids is None else ids[i]) for i, s in enumerate(specs)]
    ki, ko = [0] * n, [0] * n
    named, todo = [], {}
    for a, b in wires:
        y, u = built[a][4][ko[a]], built[b][3][ki[b]]
        named.append((a, specs[a].names["z"][ko[a]], b, specs[b].names["v"][ki[b]]))
        ko[a] += not share
        ki[b] += 1
        if grouped:
            todo.setdefault((a, b), []).append((y, u))
        else:
            net.connect(y, u, built[a][0], built[b][0])
    for (a, b), l in todo.items():
        # in reverse: the order of the connection is not the order of the model
        net.connect(ca.vertcat(*[q[0] for q in l[::-1]]), ca.vertcat(*[q[1] for q in l[::-1]]), built[a][0], built[b][0])
    if inter == "after":
        net.insert_intermediary_nodes()
    return net, [q[0] for q in built], specs, named


def central(wires, n, fe, deg, t_0=0.0, share=False):
    """The centralised discretised optimum, assembled here as one quadratic problem."""
    import casadi as ca

    _, _, specs, named = None, None, [NodeSpec(i, sum(b == i for _, b in wires), outputs(wires, i, share), False) for i in range(n)], None
    ki, ko = [0] * n, [0] * n
    src = {}
    for a, b in wires:
        src[(b, ki[b])] = (a, ko[a])
        ki[b] += 1
        ko[a] += not share
    taus = [0.0] + T.radau(deg)
    h = TF / fe
    opti = ca.Opti()
    X = [[[opti.variable() for _ in range(deg + 1)] for _ in range(fe)] for _ in range(n)]
    W = [[[opti.variable() for _ in range(deg)] for _ in range(fe)] for _ in range(n)]
    # Radau weights by exactness on polynomials
    import numpy as np

    Wt = np.linalg.solve(np.array([[t ** k for t in taus[1:]] for k in range(deg)]), np.array([1.0 / (k + 1) for k in range(deg)]))
    J = 0
    z = lambda i, k, el, j: specs[i].c[k] * X[i][el][j + 1] + specs[i].dd[k] * W[i][el][j]
    for i, s in enumerate(specs):
        opti.subject_to(X[i][0][0] == s.x0)
        for el in range(fe):
            if el:
                opti.subject_to(X[i][el][0] == X[i][el - 1][-1])
            for j in range(deg):
                v = [z(*src[(i, k)], el, j) for k in range(s.n_in)]
                dx = 0
                for a, ta in enumerate(taus):
                    c = 0.0
                    for b, tb in enumerate(taus):
                        if b == a:
                            continue
                        w = 1.0 / (ta - tb)
                        for q, tq in enumerate(taus):
                            if q not in (a, b):
                                w *= (taus[j + 1] - tq) / (ta - tq)
                        c += w
                    dx = dx + c * X[i][el][a]
                opti.subject_to(dx == h * s.f(X[i][el][j + 1], W[i][el][j], v))
                J = J + h * Wt[j] * s.L(X[i][el][j + 1], W[i][el][j], v)
    opti.minimize(J)
    opti.solver("ipopt", {"print_time": False, "ipopt.print_level": 0, "ipopt.sb": "yes", "ipopt.linear_solver": "mumps", "ipopt.tol": 1e-11})
    s = opti.solve()
    return float(s.value(J)), [[[float(s.value(q)) for q in r] for r in xi] for xi in X], [[[float(s.value(q)) for q in r] for r in wi] for wi in W]
