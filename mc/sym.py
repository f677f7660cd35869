"""Reference algebra: polynomials over integer tokens, and the bridge to CasADi.

A token stands for one scalar symbol.  The reference models compute on `Poly`
values only; the implementation computes on CasADi expressions.  The two are
compared by evaluating both at fixed generic points.
"""
import math

from .core import Disagreement


class Poly:
    __slots__ = ("m",)

    def __init__(self, m=None):
        self.m = {k: c for k, c in (m or {}).items() if c != 0}

    @staticmethod
    def tok(t):
        return Poly({(t,): 1})

    @staticmethod
    def const(c):
        return Poly({(): c})

    def __add__(self, o):
        o = as_poly(o)
        m = dict(self.m)
        for k, c in o.m.items():
            m[k] = m.get(k, 0) + c
        return Poly(m)

    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -c for k, c in self.m.items()})

    def __sub__(self, o):
        return self + (-as_poly(o))

    def __rsub__(self, o):
        return as_poly(o) - self

    def __mul__(self, o):
        o = as_poly(o)
        m = {}
        for k1, c1 in self.m.items():
            for k2, c2 in o.m.items():
                k = tuple(sorted(k1 + k2))
                m[k] = m.get(k, 0) + c1 * c2
        return Poly(m)

    __rmul__ = __mul__

    def subs(self, mapping):
        """Simultaneous substitution token -> Poly."""
        out = Poly()
        for k, c in self.m.items():
            term = Poly.const(c)
            for t in k:
                term = term * (mapping[t] if t in mapping else Poly.tok(t))
            out = out + term
        return out

    def diff(self, tok):
        m = {}
        for k, c in self.m.items():
            n = k.count(tok)
            if n:
                kk = list(k)
                kk.remove(tok)
                kk = tuple(kk)
                m[kk] = m.get(kk, 0) + c * n
        return Poly(m)

    def tokens(self):
        return {t for k in self.m for t in k}

    def eval(self, env):
        return sum(c * math.prod(env(t) for t in k) for k, c in self.m.items())

    def key(self):
        return tuple(sorted(self.m.items()))

    def __repr__(self):
        return repr(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def __hash__(self):
        return hash(self.key())


def as_poly(x):
    return x if isinstance(x, Poly) else Poly.const(x)


def point(k):
    """k-th generic evaluation point: token -> value (distinct, O(1), no ties)."""

    def val(t):
        return 0.35 + math.modf((t + 1) * 0.7548776662466927 + (k + 1) * 0.5698402909980532)[0] * 1.3

    return val


class Env:
    """Token <-> CasADi scalar symbol."""

    def __init__(self):
        self.sym = {}  # tok -> SX scalar
        self.tok = {}  # element_hash -> tok
        self.one_name = None  # a name that every created variable gets

    def bind(self, tok, s):
        h = s.element_hash()
        if h in self.tok and self.tok[h] != tok:
            raise Disagreement(
                "symbol-reused",
                "symbol %s (token %s) was already bound to token %s" % (s, tok, self.tok[h]),
            )
        self.sym[tok] = s
        self.tok[h] = tok

    def bind_vec(self, toks, v):
        import casadi as ca

        v = ca.vec(v)
        if v.numel() != len(toks):
            raise Disagreement(
                "wrong-size", "expected %d scalars, got %d" % (len(toks), v.numel())
            )
        for i, t in enumerate(toks):
            self.bind(t, v[i])

    def vec(self, toks):
        import casadi as ca

        return ca.vertcat(*[self.sym[t] for t in toks]) if toks else ca.SX(0, 1)

    def sx(self, poly):
        import casadi as ca

        e = ca.SX(0)
        for k, c in sorted(poly.m.items()):
            term = ca.SX(c)
            for t in k:
                term = term * self.sym[t]
            e = e + term
        return e

    def sxs(self, polys):
        import casadi as ca

        return ca.vertcat(*[self.sx(p) for p in polys]) if polys else ca.SX(0, 1)

    def toks_of(self, vector, what="vector"):
        """The tokens of a vector of symbols."""
        out = []
        for i in range(vector.numel()):
            s = vector.nz[i]
            h = s.element_hash()
            if h not in self.tok:
                raise Disagreement("unknown-symbol:" + what, "%s[%d]=%s is not a known variable" % (what, i, s))
            out.append(self.tok[h])
        return out

    def evaluate(self, expr, k=0, extra=None, what="expression"):
        """Value of a CasADi SX expression at the k-th generic point."""
        import casadi as ca

        expr = ca.SX(expr)
        if expr.numel() == 0:
            return []
        val = point(k)
        syms = ca.symvar(expr)
        vals = []
        for s in syms:
            h = s.element_hash()
            if h not in self.tok:
                raise Disagreement(
                    "dangling-symbol:" + what, "%s contains the foreign symbol %s: %s" % (what, s, expr)
                )
            t = self.tok[h]
            vals.append(extra[t] if extra and t in extra else val(t))
        f = ca.Function("f", [ca.vertcat(*syms) if syms else ca.SX(0, 1)], [expr])
        return [float(v) for v in ca.vec(ca.DM.ones(*expr.shape) * f(vals)).full().ravel()]


def close(a, b, tol=1e-9):
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def compare(env, expr, polys, what, points=(0, 1), extra=None):
    """expr (SX vector) must equal the list of reference polynomials."""
    import casadi as ca

    n = ca.SX(expr).numel()
    if n != len(polys):
        raise Disagreement("size:" + what, "%s has %d entries, expected %d" % (what, n, len(polys)))
    for k in points:
        got = env.evaluate(expr, k, extra=extra, what=what)
        val = point(k)
        ref = [
            p.eval((lambda t: extra[t] if extra and t in extra else val(t))) for p in polys
        ]
        for i, (g, r) in enumerate(zip(got, ref)):
            if not close(g, r):
                raise Disagreement(
                    "value:" + what,
                    "%s[%d] evaluates to %r, the reference to %r at point %d; got %s" % (what, i, g, r, k, expr),
                )
