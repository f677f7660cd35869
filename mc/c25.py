"""C25: the timeout context manager interrupts exactly its own block and puts everything back."""
import itertools
import signal
import time

from . import core
from .core import require


class Ambiguous(Exception):
    pass


class Boom(OSError):
    pass


# A program is a list of statements: "s" (a point where the alarm may arrive), "own" (raises TimeoutError itself),
# "boom" (raises), "wrap" (wraps an arriving timeout in another exception), "convert" (raises an exception of its own instead), ("with", raise_exc, seconds, body)
LIMIT = {"o": 200, "i": 100}


def simulate(prog, at):
    """Reference semantics.  Returns (outcome, records) for the alarm arriving at point number `at` (None: never)."""
    rec = []
    n = [0]
    fired = set()

    def point(stack):
        n[0] += 1
        rec.append(("armed", tuple(s for _, s in stack[-1:])))
        if at is not None and n[0] == at:
            return ("timeout", stack[-1][0] if stack else None)
        return None

    def run(body, stack):
        for st in body:
            if st == "s":
                r = point(stack)
                if r is not None:
                    if r[1] is None:
                        rec.append(("outer-handler",))
                    else:
                        return r
            elif st == "own":
                return ("own", None)
            elif st == "boom":
                return ("boom", None)
            elif st[0] == "wrap":
                r = run(st[1], stack)
                if r is not None and r[0] in ("timeout", "wrapped"):
                    return ("wrapped", r[1])
                if r is not None:
                    return r
            elif st[0] == "convert":
                r = run(st[1], stack)
                if r is not None and r[0] in ("timeout", "wrapped"):
                    fired.add(r[1])
                    return ("boom", None)
                if r is not None:
                    return r
            elif st[0] == "catch":
                r = run(st[1], stack)
                if r is not None and r[1] is not None and r[1] in [i for i, _ in stack]:
                    raise Ambiguous()  # a block that swallows its own expiration
                rec.append(("caught", r is not None))
            elif st[0] == "with":
                me = (id(st), st[2])
                r = run(st[3], stack + [me])
                if r is None:
                    rec.append(("left", False))
                elif r[0] in ("timeout", "wrapped") and r[1] == me[0]:
                    rec.append(("left", True))
                    if st[1]:
                        return r
                else:
                    rec.append(("left", "either" if me[0] in fired else False))  # expired, but left by an exception of the block's own
                    return r
            else:
                raise AssertionError(st)
        return None

    try:
        r = run(prog, [])
    except Ambiguous:
        return "ambiguous", rec
    return (r[0] if r else None), rec


def execute(prog, at, tr):
    from yaocptool.util import timeout

    rec = []
    n = [0]

    def outer(signum, frame):
        rec.append(("outer-handler",))

    def point(stack):
        n[0] += 1
        left = signal.getitimer(signal.ITIMER_REAL)[0]
        rec.append(("armed", tuple(s for s in stack[-1:] if s - 2 < left <= s + 1e-6) if stack or left else ()))
        if at is not None and n[0] == at:
            signal.raise_signal(signal.SIGALRM)

    def run(body, stack):
        for st in body:
            if st == "s":
                point(stack)
            elif st == "own":
                raise TimeoutError("own")
            elif st == "boom":
                raise Boom("boom")
            elif st[0] == "wrap":
                try:
                    run(st[1], stack)
                except TimeoutError as e:
                    if str(e) == "own":
                        raise
                    raise RuntimeError("wrapped") from e
                except RuntimeError as e:
                    if str(e) != "wrapped":
                        raise
                    raise RuntimeError("wrapped") from e
            elif st[0] == "convert":
                try:
                    run(st[1], stack)
                except (TimeoutError, RuntimeError) as e:
                    if str(e) == "own":
                        raise
                    raise Boom("in the place of a timeout") from None
            elif st[0] == "catch":
                try:
                    run(st[1], stack)
                    rec.append(("caught", False))
                except Exception:
                    rec.append(("caught", True))
            elif st[0] == "with":
                t = None
                try:
                    with timeout(st[2], raise_exc=st[1], error_message="limit %d" % st[2]) as t:
                        require(t.timedout is None, "early-answer", "timedout is %r inside the block" % t.timedout)
                        run(st[3], stack + [st[2]])
                finally:
                    rec.append(("left", t.timedout))
                tr.step()

    old = signal.signal(signal.SIGALRM, outer)
    left = signal.alarm(0)
    try:
        try:
            run(prog, [])
            out, msg = None, None
        except TimeoutError as e:
            out, msg = ("own" if str(e) == "own" else "timeout"), str(e)
        except Boom:
            out, msg = "boom", None
        except RuntimeError as e:
            if str(e) != "wrapped":
                raise
            out, msg = "wrapped", None
        handler, rest = signal.getsignal(signal.SIGALRM), signal.getitimer(signal.ITIMER_REAL)[0]
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        if left:
            signal.alarm(left)
    return out, rec, msg, handler is outer, rest


def run_program(cfg, tr):
    def tup(p):
        return [s if isinstance(s, str) else ((s[0], s[1], s[2], tup(s[3])) if s[0] == "with" else (s[0], tup(s[1]))) for s in p]

    prog = tup(cfg["prog"])
    out, rec = simulate(prog, cfg["at"])
    if out == "ambiguous":
        tr.note("ambiguous")
        return
    gout, grec, msg, same, rest = execute(prog, cfg["at"], tr)
    for i, (a, b) in enumerate(itertools.zip_longest(grec, rec)):
        require(a == b or (b == ("left", "either") and a[0] == "left"), {"left": "timedout", "armed": "alarm", "outer-handler": "handler"}.get((b or a)[0], "control"), lambda: "event %d: %s, expected %s (of %s)" % (i, a, b, rec))
    require(gout == out, "outcome", lambda: "ended with %s, expected %s" % (gout, out))
    require(same, "handler-left", "the previous handler was not restored")
    require(rest == 0, "alarm-left", lambda: "an alarm in %s s is left" % rest)
    if out == "timeout":
        require(msg.startswith("limit"), "message", lambda: "message %r" % msg)
    tr.state((out, tuple(rec)))


def run_real(cfg, tr):
    """Real time: the limit expires during a long block and not during a short one."""
    from yaocptool.util import timeout

    t0 = time.monotonic()
    t = timeout(cfg["limit"], raise_exc=cfg["raise"])
    raised, done = False, False
    try:
        with t:
            if cfg["inner"]:
                with timeout(50) as t2:
                    time.sleep(cfg["inner"])
                require(t2.timedout is False, "timedout", "inner block did not time out")
            end = time.monotonic() + cfg["work"]
            while time.monotonic() < end:
                time.sleep(0.02)
            done = True
    except TimeoutError:
        raised = True
    dt = time.monotonic() - t0
    exp = cfg["work"] + cfg["inner"] > cfg["limit"]
    require(t.timedout is exp, "timedout", lambda: "timedout %r, expected %r" % (t.timedout, exp))
    require(done is (not exp), "interrupted", lambda: "block completed: %s" % done)
    require(raised is (exp and cfg["raise"]), "raised", lambda: "raised: %s" % raised)
    require(not exp or dt < max(cfg["limit"], cfg["inner"]) + 1.5, "late", lambda: "interrupted after %.2f s" % dt)
    tr.step()
    tr.state(sorted(cfg.items()))


def run_reuse(cfg, tr):
    """The same object used again and again."""
    from yaocptool.util import timeout

    old = signal.getsignal(signal.SIGALRM)
    t = timeout(100, raise_exc=cfg["raise"])
    for use in cfg["uses"]:
        out = None
        try:
            with t:
                require(t.timedout is None, "early-answer", "timedout is %r inside the block" % t.timedout)
                if use == "alarm":
                    signal.raise_signal(signal.SIGALRM)
                elif use == "own":
                    raise TimeoutError("own")
                elif use == "boom":
                    raise Boom()
        except (TimeoutError, Boom) as e:
            out = "own" if str(e) == "own" else type(e).__name__
        exp = {"ok": None, "alarm": "TimeoutError" if cfg["raise"] else None, "own": "own", "boom": "Boom"}[use]
        require(out == exp, "outcome", lambda: "%s gave %s" % (use, out))
        require(t.timedout is (use == "alarm"), "timedout", lambda: "%s: timedout %r" % (use, t.timedout))
        require(signal.getsignal(signal.SIGALRM) == old and signal.getitimer(signal.ITIMER_REAL)[0] == 0, "left-behind", "handler or alarm left behind")
        tr.step()
        tr.state((cfg["uses"], use))


def points(prog):
    n = 0
    for st in prog:
        if st == "s":
            n += 1
        elif not isinstance(st, str):
            n += points(st[-1])
    return n


def deep(n):
    """an expiration wrapped n times"""
    return ("wrap", ["s"]) if n == 1 else ("wrap", [deep(n - 1)])


def programs(th):
    leaf = [[], ["s"], ["s", "s"], ["own"], ["s", "own"], ["boom"], ["s", "boom"], [("wrap", ["s"])], [deep(2)], ["s", deep(4)], [deep(10), "s"], [deep(15)], ["s", ("wrap", ["s", "own"])], [("catch", ["s"]), "s"], [("catch", ["own"]), "s"],
            [("catch", ["s", "boom"]), "boom"], [("convert", ["s"])], ["s", ("convert", ["s", "own"]), "s"], [("convert", [("wrap", ["s"])]), "s"]]
    inner = [("with", r, 100, b) for r in (True, False) for b in leaf]
    for w in inner:
        yield [w]
        yield ["s", w, "s"]
        yield [("catch", [w]), "s", ("with", True, 50, ["s"])]
    pre = [[], ["s"]]
    post = [[], ["s"], ["own"], ["boom"]]
    for r in (True, False):
        for w in inner:
            for a in pre if th else pre[:1]:
                for b in post:
                    yield [("with", r, 200, a + [w] + b), "s"]
                    if th:
                        yield [("with", r, 200, a + [("catch", [w])] + b), "s"]
                        yield [("with", r, 200, a + [w, w] + b), "s"]
            if not th:
                yield [("with", r, 200, ["s", ("catch", [w]), "s"]), "s"]
                yield [("with", r, 50, ["s", w, "s"])]
            yield [("with", r, 200, [("convert", ["s", w, "s"]), "s"]), "s"]
    for r in itertools.product((True, False), repeat=3):
        for b in leaf[: None if th else 5]:
            yield [("with", r[0], 300, ["s", ("with", r[1], 200, ["s", ("with", r[2], 100, b), "s"]), "s"]), "s"]


def build(tier):
    import yaocptool.util  # noqa: F401

    th = tier == "thorough"
    sc = []
    for p in programs(th):
        for at in [None] + list(range(1, points(p) + 1)):
            sc.append(dict(prog=p, at=at))
    reuse = [dict(uses=u, **{"raise": r}) for n in (1, 2, 3, 4)[: 4 if th else 3] for u in itertools.product(("ok", "alarm", "own", "boom"), repeat=n) for r in (True, False)]
    real = [dict(limit=1, work=w, inner=i, **{"raise": r}) for w in (0.1, 3.0) for r in (True, False) for i in (0.0, 0.05)]
    # the inner block outlasts the limit of the outer one, which is interrupted once the inner block is over
    real += [dict(limit=lim, work=3.0, inner=i, **{"raise": r}) for lim, i in ((1, 1.3), (1, 2.3), (2, 2.2)) for r in (True, False)]
    return [core.Suite("alarm points", sc, run_program), core.Suite("reuse", reuse, run_reuse), core.Suite("real time", real, run_real)]


if __name__ == "__main__":
    core.main("C25", build,
              {"quick": "programs of up to three nested timeouts with own exceptions, wrapping, catching and replacing; the alarm arrives at every point of every program; all histories of up to 3 uses of one object; expirations in real time",
               "thorough": "more programs, up to 4 uses"},
              ["alarms are real signals raised at the enumerated points; when a block turns its own expiration into an unrelated exception, that exception has to pass, and what `timedout` says is not judged"])
