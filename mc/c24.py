"""C24: CasADi expressions survive the transport between processes, in any order of messages."""
import itertools
import pickle

from . import core
from .core import require


def objects(kind):
    """Message contents; expressions share symbols inside and across messages."""
    import casadi as ca

    x, z, v = ca.SX.sym("x"), ca.SX.sym("z"), ca.SX.sym("v", 3)
    a, b, m = ca.MX.sym("a"), ca.MX.sym("b", 2), ca.MX.sym("m", 2, 2)
    sp = ca.SX(ca.Sparsity.diag(3))
    sp[1, 1] = x * z
    w = ca.SX.sym("w", 400)
    long_ = x
    for i in range(400):
        long_ = ca.sin(long_ + w[i]) * (1 + i)
    k = ca.MX.sym("k", 30)
    longm = a
    for i in range(60):
        longm = ca.cos(longm * k[i % 30] + i)
    return {
        "big": [x * 2, w, long_, x * long_, [z, w[399] * long_], longm, [a, k, longm + a], x],
        "sx": x,
        "mx": a,
        "list": [x, z, x * z + ca.sin(v[1])],
        "shared": {"e": x * z, "s": x, "again": [x, (z, x * z)]},
        "mixed": (ca.vertcat(x, v), [a * 2, b, m @ b + a], x + 1, {"k": "text", "n": 3}),
        "matrix": [sp, ca.horzcat(v, 2 * v), m, ca.mtimes(m, m).T, v],
        "empty": [ca.SX(), ca.SX.zeros(0, 1), ca.MX.zeros(2, 2), x],
        "none": {"plain": [1, 2.5, None, "q"]},
    }[kind]


def leaves(o, path=""):
    import casadi as ca

    if isinstance(o, (ca.SX, ca.MX)):
        yield path, o
    elif isinstance(o, dict):
        for k in o:
            yield from leaves(o[k], path + "/" + str(k))
    elif isinstance(o, (list, tuple)):
        for i, q in enumerate(o):
            yield from leaves(q, path + "/%d" % i)
    else:
        yield path, o


def compare(got, exp, where):
    import casadi as ca

    g, e = list(leaves(got)), list(leaves(exp))
    require([p for p, _ in g] == [p for p, _ in e], "structure", lambda: "%s: %s, expected %s" % (where, [p for p, _ in g], [p for p, _ in e]))
    canon = {}
    for (p, a), (_, b) in zip(g, e):
        require(type(a) is type(b), "type", lambda: "%s%s: %s, expected %s" % (where, p, type(a), type(b)))
        if not isinstance(b, (ca.SX, ca.MX)):
            require(a == b, "value", lambda: "%s%s: %r, expected %r" % (where, p, a, b))
            continue
        require(a.shape == b.shape and a.sparsity() == b.sparsity(), "shape", lambda: "%s%s: %s, expected %s" % (where, p, a, b))
        sa, sb = ca.symvar(a), ca.symvar(b)
        require([s.name() for s in sa] == [s.name() for s in sb] and [s.shape for s in sa] == [s.shape for s in sb], "symbols", lambda: "%s%s: %s, expected %s" % (where, p, sa, sb))
        vals = [ca.DM([[0.3 + 0.17 * i + 0.11 * r - 0.05 * c for c in range(s.shape[1])] for r in range(s.shape[0])]) for i, s in enumerate(sb)]
        fa, fb = ca.Function("fa", sa, [a])(*vals), ca.Function("fb", sb, [b])(*vals)
        if len(sb) == 0:
            fa, fb = ca.Function("fa", [], [a])(), ca.Function("fb", [], [b])()
            fa, fb = list(fa.values())[0], list(fb.values())[0]
        require(float(ca.norm_fro(ca.DM(fa) - ca.DM(fb))) < 1e-12 if fb.numel() else True, "value", lambda: "%s%s: %s, expected %s" % (where, p, a, b))
        for q, r in zip(sa, sb):
            key = (type(r).__name__, r.name())
            if key in canon:
                require(ca.is_equal(q, canon[key]) and q.__hash__() == canon[key].__hash__(), "identity",
                        lambda: "%s%s: symbol %s is not the one of the other expressions of the message" % (where, p, r.name()))
            canon[key] = q


def run_stream(cfg, tr):
    """Dump the messages with the given interleaving of picklers, load them in the given order."""
    import io
    import multiprocessing as mp
    import yaocptool.util.serializer  # noqa: F401

    FP = mp.reduction.ForkingPickler
    msgs = [objects(k) for k in cfg["msgs"]]
    data, picklers = {}, {}
    for op, i in cfg["ops"]:
        if op == "new":
            buf = io.BytesIO()
            picklers[i] = (FP(buf, cfg.get("proto")), buf)
        elif op == "write":
            p, buf = picklers[i]
            p.dump(msgs[i])
            data[i] = buf.getvalue()
        elif op == "dump":
            data[i] = bytes(FP.dumps(msgs[i]))
        elif op == "load":
            compare(pickle.loads(data[i]), msgs[i], "message %d" % i)
        tr.step()
        tr.state((cfg["msgs"], sorted(data), op, i))


def run_chunks(cfg, tr):
    """The (de)pickler used directly: chunks of one stream come out as they went in, whatever other streams do."""
    from yaocptool.util.serializer import CasadiPicklerDepickler

    objs = {k: [o for _, o in leaves(objects(k))] for k in cfg["streams"]}
    p = {}
    out = {k: [] for k in cfg["streams"]}
    pos = {k: 0 for k in cfg["streams"]}
    for k in cfg["order"]:
        if k not in p:
            p[k] = CasadiPicklerDepickler()
            tr.step()
        i = pos[k]
        s = p[k].dumps(objs[k][i])
        out[k].append(s)
        pos[k] += 1
        if cfg["eager"]:
            compare(p[k].loads(s), objs[k][i], "%s chunk %d" % (k, i))
        tr.step()
    if not cfg["eager"]:
        for k in cfg["streams"]:
            got = [p[k].loads(s) for s in out[k]]
            compare(got, objs[k][: len(got)], k)
    tr.state((cfg["order"], cfg["eager"]))


def _send(conn, kinds):
    for k in kinds:
        conn.send(objects(k))
    conn.close()


def _echo(q, r, n):
    for _ in range(n):
        r.put(q.get())


def run_process(cfg, tr):
    """Real processes, pipes and queues."""
    import yaocptool.util.serializer  # noqa: F401
    import multiprocessing as mp

    ctx = mp.get_context("fork")
    kinds = cfg["msgs"]
    if cfg["how"] == "pipe":
        r, w = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_send, args=(w, kinds))
        p.start()
        w.close()
        for k in kinds:
            compare(r.recv(), objects(k), k)
            tr.step()
        p.join()
    else:
        q, r = ctx.SimpleQueue(), ctx.SimpleQueue()
        p = ctx.Process(target=_echo, args=(q, r, len(kinds)))
        p.start()
        lead = 0 if "big" in kinds else len(kinds)  # large messages fill the pipes
        for i in range(len(kinds) + lead):
            if i < len(kinds):
                q.put(objects(kinds[i]))
                tr.step()
            if i >= lead:
                compare(r.get(), objects(kinds[i - lead]), kinds[i - lead])
                tr.step()
        p.join()
    tr.state((kinds, cfg["how"]))


def interleavings(progs):
    """All interleavings of the programs (lists of operations)."""
    progs = [p for p in progs if p]
    if not progs:
        yield ()
        return
    for i, p in enumerate(progs):
        rest = progs[:i] + [p[1:]] + progs[i + 1:]
        for t in interleavings(rest):
            yield (p[0],) + t


def build(tier):
    import yaocptool.util.serializer  # noqa: F401

    th = tier == "thorough"
    kinds = ["sx", "mx", "list", "shared", "mixed", "matrix", "empty", "none", "big"]
    streams, chunks, procs = [], [], []
    for k in kinds:
        for proto in (None, 2, 4, 5):
            streams.append(dict(msgs=(k,), ops=(("new", 0), ("write", 0), ("load", 0), ("load", 0)), proto=proto))
    # every interleaving of two (three) picklers and loads
    for ks in itertools.product(kinds if th else ["sx", "list", "shared", "mixed", "empty", "big"], repeat=2):
        for ops in interleavings([[("new", 0), ("write", 0), ("load", 0)], [("new", 1), ("write", 1), ("load", 1)]]):
            streams.append(dict(msgs=ks, ops=ops))
        for ops in interleavings([[("dump", 0), ("load", 0), ("load", 0)], [("dump", 1), ("load", 1)]]):
            streams.append(dict(msgs=ks, ops=ops))
    for ks in (("list", "list", "shared"), ("mixed", "sx", "mixed")) if not th else itertools.product(["list", "shared", "mixed"], repeat=3):
        for ops in interleavings([[("dump", i), ("load", i)] for i in range(3)]):
            streams.append(dict(msgs=ks, ops=ops))
        if th:
            for ops in interleavings([[("new", i), ("write", i), ("load", i)] for i in range(3)]):
                streams.append(dict(msgs=ks, ops=ops))
    for ks in (("list",), ("shared",), ("mixed_",), ("list", "shared"), ("matrix", "list"), ("big",), ("big", "list"), ("list", "list2")):
        ks = tuple(k.rstrip("_2") for k in ks)
        if "mixed" in ks or len(set(ks)) != len(ks):
            continue
        n = {"list": 3, "shared": 4, "matrix": 5, "big": 9}
        progs = [[k] * n[k] for k in ks]
        for order in interleavings(progs):
            for eager in (False, True):
                chunks.append(dict(streams=ks, order=order, eager=eager))
    for how in ("pipe", "echo"):
        for ks in itertools.chain.from_iterable(itertools.product(["list", "shared", "mixed", "sx", "big"], repeat=n) for n in ((1, 2, 3) if th else (1, 2))):
            procs.append(dict(how=how, msgs=ks))
    return [core.Suite("messages", streams, run_stream), core.Suite("chunks", chunks, run_chunks), core.Suite("processes", procs, run_process)]


if __name__ == "__main__":
    core.main("C24", build,
              {"quick": "9 message contents; all interleavings of creating, writing and (repeatedly) loading two or three messages; all interleavings of chunks of two streams; pipes and queues between real processes",
               "thorough": "all pairs and triples of contents, message sequences up to length 3 through real processes"},
              ["schedules of the two ends of real pipes are those of the operating system; order of operations inside one process is enumerated"])
