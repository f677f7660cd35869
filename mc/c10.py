"""C10: a DataSet returns exactly the data that was put in, through any history."""
import copy
import itertools
import os
import pickle
import tempfile

from . import core
from .core import Disagreement, require


class Ref:
    def __init__(self):
        self.e = {}  # name -> dict(size, names, style, pts=[(t, (v...))])
        self.k = 0

    def create(self, n, size, names, style):
        self.e[n] = dict(size=size, names=names, style=style, pts=[])

    def copy(self):
        return copy.deepcopy(self)

    def sort(self, n):
        self.e[n]["pts"].sort(key=lambda q: q[0])

    def val(self, n):
        self.k += 1
        return tuple(100.0 * self.k + i for i in range(self.e[n]["size"]))


ENT = {"x": (2, ["h", "v"], "plot"), "u": (1, None, "step"), "z": (0, [], "plot"), "w": (12, None, "plot")}


def names_of(n):
    size, names, _ = ENT[n]
    return names if names is not None else ["%s_%d" % (n, i) for i in range(size)]


def observe(ds, ref, who):
    import casadi as ca

    require(set(ds.data) == set(ref.e), "entries:" + who, "%s" % sorted(ds.data))
    for n, e in ref.e.items():
        t, v = ds.get_entry(n)
        require(list(ds.get_entry_names(n)) == e["names"], "names:" + who, "%s" % ds.get_entry_names(n))
        require(ds.get_entry_size(n) == e["size"], "size:" + who, "")
        require(ds.data[n].plot_style == e["style"], "style:" + who, "%s" % ds.data[n].plot_style)
        tt = [float(q) for q in ca.DM(t).full().ravel()]
        require(tt == [q[0] for q in e["pts"]], "times:" + who, lambda: "%s: %s expected %s" % (n, tt, e["pts"]))
        if e["pts"]:
            require(v.shape == (e["size"], len(tt)), "shape:" + who, "%s" % (v.shape,))
            got = [tuple(float(q) for q in v[:, i].full().ravel()) for i in range(len(tt))] if e["size"] else [()] * len(tt)
            require(got == [q[1] for q in e["pts"]], "values:" + who, lambda: "%s: %s expected %s" % (n, got, e["pts"]))
        else:
            require(v.numel() == 0, "values:" + who, "")


def dataframe(ds, ref):
    import math

    ents = {n: e for n, e in ref.e.items() if e["size"]}
    if not ents or any(not e["pts"] or len({q[0] for q in e["pts"]}) != len(e["pts"]) for e in ents.values()):
        return False
    df = ds.as_dataframe()
    times = sorted({q[0] for e in ents.values() for q in e["pts"]})
    require(sorted(float(i) for i in df.index) == times, "dataframe-index", "%s" % df)
    require([tuple(c) for c in df.columns] == [(n, nm) for n, e in ents.items() for nm in e["names"]], "dataframe-columns", "%s" % df.columns)
    for n, e in ents.items():
        d = dict(e["pts"])
        for t in times:
            for i, nm in enumerate(e["names"]):
                v = float(df.loc[t, (n, nm)])
                require(v == d[t][i] if t in d else math.isnan(v), "dataframe-value", "%s" % df)
    return True


TIMES = {"t0": [-0.5], "t1": [1.25], "t2": [1.75], "t20": [1.75, 1.7499999], "t12": [1.25, 1.75], "tm": [10.0, 9.0000003, 9.0, 11.0, 1.0, -3.0, 100.0, 20.0, 2.5, -10.0, 0.0, 3.0]}
OPS = (["create_x", "create_u", "create_z"]
       + ["ins_x_t1", "ins_x_t0", "ins_u_t2", "ins_u_t0", "ins_x_t20", "ins_u_t12", "ins_z_t1"]
       + ["bad_cols", "sort_all", "sort_x", "ext_late", "ext_new", "ext_empty", "ext_badsize", "ext_smaller", "ext_self", "rename_x", "poke_x", "copy", "swap", "save"])


def other(kind, ref):
    from yaocptool.modelling import DataSet
    import casadi as ca

    d, r = DataSet("other"), Ref()
    r.k = ref.k + 50
    ref.k += 100
    spec = {"late": [("x", [1.75, 1.5])], "new": [("u", [1.5]), ("x", [0.25])], "empty": [("u", [])]}[kind]
    for n, ts in spec:
        size, names, style = ENT[n]
        d.create_entry(n, size=size, names=names, plot_style=style)
        r.create(n, size, names_of(n), style)
        for t in ts:
            v = r.val(n)
            d.insert_data(n, t, ca.DM(v))
            r.e[n]["pts"].append((t, v))
    return d, r


def step(name, objs, i):
    """objs: [[dataset, ref], ...]; the first one is current.  None: not enabled."""
    import casadi as ca
    from yaocptool.modelling import DataSet

    ds, ref = objs[0]
    if name.startswith("create_"):
        n = name[7:]
        if n in ref.e and i % 2:
            return None
        size, names, style = ENT[n]
        if names is None:
            ds.create_entry(n, size=size, plot_style=style)
        else:
            ds.create_entry(n, size=size, names=list(names), plot_style=style)
        ref.create(n, size, names_of(n), style)
    elif name.startswith("ins_"):
        _, n, tk = name.split("_")
        if n not in ref.e:
            return None
        ts = TIMES[tk]
        vs = [ref.val(n) for _ in ts]
        if ref.e[n]["size"]:
            M = ca.horzcat(*[ca.DM(v) for v in vs])
        else:
            M = ca.DM(0, len(ts))
        form = i % 3
        if len(ts) == 1 and form == 0:
            ds.insert_data(n, ts[0], M)
        elif form == 1:
            ds.insert_data(n, list(ts), M)
        else:
            ds.insert_data(n, ca.DM(ts).T, M)
        ref.e[n]["pts"] += list(zip(ts, vs))
    elif name == "bad_cols":
        if "x" not in ref.e:
            return None
        try:
            ds.insert_data("x", [0.0, 1.0], ca.DM([[1.0], [2.0]]))
        except ValueError:
            return True
        raise Disagreement("bad-insert-accepted", "two times, one value column")
    elif name == "sort_all":
        ds.sort()
        for n in ref.e:
            ref.sort(n)
    elif name == "sort_x":
        if "x" not in ref.e:
            return None
        ds.sort(["x"])
        ref.sort("x")
    elif name == "ext_self":
        if not ref.e:
            return None
        ds.extend(ds.get_copy())
        for n, e in ref.e.items():
            e["pts"] = e["pts"] + e["pts"]
        for n in ref.e:
            ref.sort(n)
    elif name == "rename_x":
        if "x" not in ref.e:
            return None
        ref.e["x"]["names"] = ["r%d" % i] + list(ref.e["x"]["names"][1:])
        ds.get_entry_names("x")[0] = "r%d" % i
    elif name == "poke_x":
        if "x" not in ref.e or not ref.e["x"]["pts"]:
            return None
        t, v = ds.get_entry("x")
        ds.data["x"].values[1, 0] = -7.0 - i
        t0, w = ref.e["x"]["pts"][0]
        ref.e["x"]["pts"][0] = (t0, (w[0], -7.0 - i))
    elif name in ("ext_badsize", "ext_smaller"):
        if "x" not in ref.e:
            return None
        o = DataSet("bad")
        k = 3 if name == "ext_badsize" else 1
        o.create_entry("x", size=k)
        o.insert_data("x", 0.0, ca.DM([1, 2, 3][:k]))
        try:
            ds.extend(o)
        except ValueError:
            return True
        raise Disagreement("bad-extend-accepted", "entries of different size were merged")
    elif name.startswith("ext_"):
        o, ro = other(name[4:], ref)
        ds.extend(o)
        observe(o, ro, "argument")
        for n, e in ro.e.items():
            if n not in ref.e:
                ref.create(n, e["size"], list(e["names"]), e["style"])
            ref.e[n]["pts"] += e["pts"]
        for n in ref.e:
            ref.sort(n)
    elif name == "copy":
        if len(objs) > 1:
            return None
        objs.append([ds.get_copy(), ref.copy()])
        objs[-1][1].k += 5000
        require(objs[-1][0].name == ds.name and objs[-1][0].plot_style == ds.plot_style, "copy-attributes", "")
    elif name == "swap":
        if len(objs) < 2:
            return None
        objs[0], objs[1] = objs[1], objs[0]
    elif name == "save":
        d = tempfile.mkdtemp(prefix="verif_ds_")
        sub = os.path.join(d, "new")
        path = os.path.join(sub if i % 2 else d, "f.p")
        try:
            ds.save(path)
            with open(path, "rb") as f:
                objs[0][0] = pickle.load(f)
            require(type(objs[0][0]) is type(ds), "save-type", "")
            require(objs[0][0].name == ds.name, "save-name", "")
        finally:
            if os.path.exists(path):
                os.unlink(path)
            if os.path.isdir(sub):
                os.rmdir(sub)
            os.rmdir(d)
    return True


def run(seq, tr):
    from yaocptool.modelling import DataSet

    objs = [[DataSet("d"), Ref()]]
    for i, name in enumerate(seq):
        if step(name, objs, i) is None:
            return
        tr.step()
        for q, (d, r) in enumerate(objs):
            try:
                observe(d, r, ("current", "other")[q])
            except Disagreement as e:
                raise Disagreement(e.key, "after %s: %s" % (seq[: i + 1], e.msg))
        tr.state([sorted((n, e["size"], e["pts"]) for n, e in r.e.items()) for _, r in objs])
    if dataframe(*objs[0]):
        tr.note("dataframes")


def run_plot(sc, tr):
    """Every line of every figure shows exactly the selected row."""
    import casadi as ca
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from yaocptool.modelling import DataSet

    import pandas._config.config as pc

    try:  # the installed seaborn expects an option the installed pandas no longer has
        pc.register_option("mode.use_inf_as_null", False)
    except pc.OptionError:
        pass
    styles, sel, exact, given = sc
    plt.close("all")
    ds = DataSet("d")
    times = {"x": [0.0, 1.0, 2.0, 3.0], "u": [0.5, 1.5]}
    names = {"x": ["h_1", "h_2", "hh"], "u": ["v", "vv"]}
    vals = {}
    for n, st in zip(("x", "u"), styles):
        ds.create_entry(n, size=len(names[n]), names=list(names[n]), plot_style=st)
        vals[n] = [[10.0 * r + c * c + (3 if n == "u" else 0) for c in range(len(times[n]))] for r in range(len(names[n]))]
        ds.insert_data(n, times[n], ca.DM(vals[n]))
    sels = {
        "all": ({"x": "all"}, {"u": "all"}),
        "one": ({"x": [2], "u": [0]},),
        "names": ({"x": ["hh", "h_1"]}, {"u": ["v"]}),
        "regex": ({"x": ["h_.*"]}, {"u": [1]}),
        "anchored": ({"u": ["v$"]}, {"x": ["h.$"]}),
        "mixed": ({"x": [0, "hh"]},),
    }[sel]
    import re

    def select(n, s):
        if s == "all":
            return list(range(len(names[n])))
        out = [q for q in s if isinstance(q, int)]
        for q in s:
            if isinstance(q, str):
                out += [i for i, nm in enumerate(names[n]) if (nm == q if exact else re.match(q, nm))]
        return out

    if exact and sel in ("regex", "anchored"):
        return
    keep = copy.deepcopy(sels)
    figs = None
    if given:
        figs = [plt.figure(40 + i) for i in range(given)]
    out = ds.plot(*sels, figures=figs, show=False, exact=exact)
    require(sels == keep, "plot-mutates-arguments", "%s" % (sels,))
    require(len(out) == len(sels), "plot-figures", "%s" % out)
    for k, d in enumerate(sels):
        if given and k < given:
            require(out[k] is figs[k], "plot-figure-given", "figure %d" % k)
        lines = [ln for ln in out[k].axes[0].lines if len(ln.get_xdata())]
        exp = [(names[n][r], times[n], vals[n][r], styles[n == "u"]) for n, s in d.items() for r in select(n, s)]
        require(len(lines) == len(exp), "plot-lines", lambda: "%d lines, expected %d" % (len(lines), len(exp)))
        for ln, (nm, t, v, st) in zip(lines, exp):
            xs, ys = [float(q) for q in ln.get_xdata()], [float(q) for q in ln.get_ydata()]
            require(xs == t and ys == v, "plot-data", lambda: "%s: %s %s expected %s %s" % (nm, xs, ys, t, v))
            # interpolated, or held from its time until the next one
            require(ln.get_drawstyle() == ("default" if st == "plot" else "steps-post"), "plot-style", lambda: "%s: %s drawn as %s" % (nm, st, ln.get_drawstyle()))
        labels = [tx.get_text() for tx in out[k].axes[0].get_legend().get_texts()]
        require([e[0] for e in exp] == labels, "plot-labels", "%s" % labels)
    plt.close("all")
    tr.step()
    tr.state(sc)


def build(tier):
    import yaocptool.modelling  # noqa: F401

    n = 3 if tier == "quick" else 4
    seqs = [("create_x", "create_u") + s for s in itertools.product(OPS, repeat=n)]
    seqs += [s for s in itertools.product(OPS, repeat=3)]
    seqs += [("create_x", "ins_x_t20", "create_u", "ins_u_t12", "copy") + s for s in itertools.product(OPS, repeat=n - 1)]
    wide = ["create_w", "ins_w_tm", "ins_w_t1", "ins_x_tm", "sort_all", "ext_self", "ext_late", "copy", "swap", "save"]
    seqs += [("create_w", "create_x") + s for s in itertools.product(wide, repeat=n)]
    plot = [(st, s, ex, g) for st in (("plot", "step"), ("step", "plot"), ("plot", "plot")) for s in ("all", "one", "names", "regex", "anchored", "mixed")
            for ex in (False, True) for g in (0, 1, 2)]
    return [core.Suite("histories", seqs, run), core.Suite("plot", plot, run_plot)]


if __name__ == "__main__":
    core.main("C10", build,
              {"quick": "all sequences of 3 dataset operations (24-operation alphabet) on an empty and on a two-entry dataset, all of 2 on a filled one with a copy, all of 3 (10-operation alphabet) on one with an entry of 12 variables and batches of 12 times; 90 plot requests",
               "thorough": "sequences of 4 / 3"})
