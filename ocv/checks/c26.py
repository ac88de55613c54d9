"""C26: dictionary-driven inputs and relabelled variables."""
import copy
import numpy as np
from hypothesis import strategies as st
import openmdao.api as om

from ..core import sub, need, Violation
from ..lib import fl, arr, sfl, gv, close, raises
from openconcept.utilities import DictIndepVarComp, DymosDesignParamsFromDict, DVLabel

UN = [None, "kg", "ft**2", "degF", "m/s", "lbf"]
SI = {"kg": ("lb", lambda v: v / 0.45359237), "ft**2": ("m**2", lambda v: v * 0.3048 ** 2), "degF": ("degC", lambda v: (v - 32) / 1.8),
      "m/s": ("km/h", lambda v: v * 3.6), "lbf": ("N", lambda v: v * 4.4482216152605)}
KEYS = ["aero", "S_ref", "CLmax", "flaps30", "geom", "wing", "W0", "value2", "units_x"]


@st.composite
def tree(draw, depth=0):
    """Nested dict; leaves are entries with value/units."""
    node = {}
    for k in draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=3, unique=True)):
        if depth < 3 and draw(st.booleans()):
            node[k] = draw(tree(depth + 1))
        else:
            kind = draw(st.sampled_from(["int", "float", "vec", "mat", "npscalar"]))
            e = {"kind": kind, "data": draw(arr(6, sfl(100.0))), "n": draw(st.integers(1, 6)), "units": draw(st.sampled_from(UN)),
                 "nounits": draw(st.booleans()), "leaf": True}
            node[k] = e
    return node


@st.composite
def cases(draw):
    return dict(tree=draw(tree()), pick=draw(st.lists(st.integers(0, 50), min_size=1, max_size=8)), sep=draw(st.sampled_from(["|", "|", ":"])),
                resetup=draw(st.integers(0, 2)), ctor=draw(st.booleans()), plain=draw(st.booleans()))


def _mk(e):
    if e.get("leaf") is True:
        d = np.array(e["data"])
        if e["kind"] == "int":
            v = int(d[0])
        elif e["kind"] == "float":
            v = float(d[0])
        elif e["kind"] == "npscalar":
            v = np.float64(d[0])
        elif e["kind"] == "vec":
            v = d[: e["n"]].copy()
        else:
            v = d.reshape(2, 3)
        out = {"value": v}
        if not (e["units"] is None and e["nounits"]):
            out["units"] = e["units"]
        return out
    return {k: _mk(x) for k, x in e.items()}


def _paths(e, pre=()):
    if e.get("leaf") is True:
        return [(pre, e)]
    r = []
    for k, x in e.items():
        r += _paths(x, pre + (k,))
    return r


def _same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(_same(a[k], b[k]) for k in a)
    return type(a) is type(b) and np.array_equal(a, b)


@sub("C26", "dict", cases, quick=500, thorough=10000, shards=6, rule="two or more entries taken from a nested dictionary")
def t_dict(case, ctx):
    data = _mk(case["tree"])
    keep = copy.deepcopy(data)
    paths = _paths(case["tree"])
    chosen = []
    for i in case["pick"]:
        q = paths[i % len(paths)]
        if q[0] not in [c[0] for c in chosen]:
            chosen.append(q)
    ivc = DictIndepVarComp(data_dict=data) if case["ctor"] else DictIndepVarComp(data)
    names = []
    for path, e in chosen:
        nm = case["sep"].join(path)
        if case["sep"] == "|":
            ivc.add_output_from_dict(nm)
        else:
            ivc.add_output_from_dict(nm, separator=case["sep"])
        names.append(nm)
    if case["plain"]:
        ivc.add_output("zzz_plain", val=3.5, units="m")
    p = om.Problem(reports=False)
    p.model.add_subsystem("ivc", ivc, promotes_outputs=["*"])
    p.setup(check=False)
    for _ in range(case["resetup"]):
        p.setup(check=False)
    p.run_model()
    outs = {m["prom_name"]: m for m in p.model.get_io_metadata(iotypes=("output",), metadata_keys=["units", "shape"]).values()}
    want = set(names) | ({"zzz_plain"} if case["plain"] else set())
    need(set(outs) == want, "outputs %s instead of %s" % (sorted(outs), sorted(want)))
    for nm, (path, e) in zip(names, chosen):
        v = _mk(e)["value"]
        ref = np.atleast_1d(np.array(v, dtype=float))
        need(tuple(outs[nm]["shape"]) == ref.shape, "%s has shape %s" % (nm, outs[nm]["shape"]))
        if e["units"] is None:
            need(outs[nm]["units"] is None, "%s has units %s" % (nm, outs[nm]["units"]))
            close(gv(p, nm), ref, 1e-14, 0, nm)
        else:
            close(gv(p, nm, e["units"]), ref, 1e-12, 1e-10, nm)
            u, f = SI[e["units"]]
            close(gv(p, nm, u), f(ref), 1e-7, 1e-7, "%s in %s" % (nm, u))
    if case["plain"]:
        close(gv(p, "zzz_plain"), [3.5], 0, 0, "ordinary output")
    need(_same(data, keep), "the data dictionary was modified")
    if len(chosen) > 1 and any(len(c[0]) > 1 for c in chosen):
        ctx.ok("entries=%d" % len(chosen), "depth=%d" % max(len(c[0]) for c in chosen))


class _Traj:
    def __init__(self, phases):
        self._phases = {k: None for k in phases}
        self.calls = []

    def add_design_parameter(self, name, **kw):
        self.calls.append((name, kw))


@st.composite
def dym(draw):
    return dict(tree=draw(tree()), pick=draw(st.lists(st.integers(0, 50), min_size=1, max_size=4)), phases=draw(st.lists(st.sampled_from(["climb", "cruise", "x"]), unique=True)),
                opt=draw(st.booleans()), dynamic=draw(st.booleans()))


@sub("C26", "dymos", dym, quick=150, thorough=2000, shards=2, rule="any entry")
def t_dymos(case, ctx):
    data = _mk(case["tree"])
    paths = _paths(case["tree"])
    tr = _Traj(case["phases"])
    d = DymosDesignParamsFromDict(data, tr)
    for i in case["pick"]:
        path, e = paths[i % len(paths)]
        nm = "|".join(path)
        d.add_output_from_dict(nm, opt=case["opt"], dynamic=case["dynamic"])
        name, kw = tr.calls[-1]
        need(name == nm and kw.get("units") == e["units"] and kw.get("opt") == case["opt"] and kw.get("dynamic") == case["dynamic"], "parameter %s: %s" % (nm, kw))
        close(np.atleast_1d(kw.get("val")), np.atleast_1d(np.array(_mk(e)["value"], float)), 0, 0, nm)
        need({k: list(v) for k, v in (kw.get("targets") or {}).items()} == {ph: [nm] for ph in case["phases"]}, "targets %s" % kw.get("targets"))
    need(len(tr.calls) == len(case["pick"]), "number of parameters")
    ctx.ok()


@st.composite
def badc(draw):
    return dict(tree=draw(tree()), i=draw(st.integers(0, 50)), kind=draw(st.sampled_from(["absent", "deeper", "shallow", "noval", "sep", "tail", "head", "elsewhere"])), dymos=draw(st.booleans()))


@sub("C26", "refusals", badc, quick=200, thorough=3000, shards=2, rule="name or structure that is absent")
def t_bad(case, ctx):
    data = _mk(case["tree"])
    paths = _paths(case["tree"])
    path, e = paths[case["i"] % len(paths)]
    k = case["kind"]
    if k == "absent":
        j = case["i"] % len(path)
        name = "|".join(path[:j] + ("nothere",) + path[j + 1:])
    elif k == "deeper":
        name = "|".join(path + ("more",))
    elif k == "shallow":
        if len(path) < 2:
            return
        name = "|".join(path[:-1])
    elif k in ("tail", "head", "elsewhere"):
        # a path that does not exist although each of its parts does, somewhere in the dictionary
        other = paths[(case["i"] // 3) % len(paths)][0]
        cand = {"tail": path[1:], "head": path[:1] + path[2:], "elsewhere": path[:-1] + other}[k]
        node, there = data, len(cand) > 0
        for q in cand:
            there = there and isinstance(node, dict) and q in node
            node = node[q] if there else None
        if there or not cand:
            return
        name = "|".join(cand)
    elif k == "sep":
        if len(path) < 2:
            return
        name = ":".join(path)
    else:
        node = data
        for q in path:
            node = node[q]
        del node["value"]
        name = "|".join(path)
    if case["dymos"]:
        c = DymosDesignParamsFromDict(data, _Traj(["a"]))
    else:
        c = DictIndepVarComp(data)
    raises(lambda: c.add_output_from_dict(name), "%s (%s)" % (name, k), KeyError)
    ctx.ok(k)


@st.composite
def lab(draw):
    vs = []
    for i in range(draw(st.integers(1, 5))):
        shape = draw(st.sampled_from([None, (1,), (3,), (4,), (2, 3)]))
        n = 1 if shape is None else int(np.prod(shape))
        vs.append(dict(shape=shape, val=draw(arr(n, sfl(9.0))), set=draw(st.booleans()), new=draw(arr(n, sfl(50.0))), units=draw(st.sampled_from(UN)), alt=draw(st.booleans()),
                       isint=draw(st.booleans())))
    return dict(vs=vs, share=draw(st.booleans()), resetup=draw(st.integers(0, 1)))


@sub("C26", "label", lab, quick=400, thorough=6000, shards=4, rule="two or more variables or an array")
def t_label(case, ctx):
    lst = []
    for i, v in enumerate(case["vs"]):
        val = np.array(v["val"]).reshape(v["shape"]) if v["shape"] else (int(v["val"][0]) if v["isint"] else v["val"][0])
        lst.append(["in%d" % i, "out|%d" % i, val, v["units"]])
    keep = [list(x) for x in lst]
    p = om.Problem(reports=False)
    p.model.add_subsystem("a", DVLabel(lst))
    if case["share"]:
        p.model.add_subsystem("b", DVLabel(lst))
    need(len(lst) == len(keep) and all(len(a) == len(b) and all(x is y for x, y in zip(a, b)) for a, b in zip(lst, keep)), "the list handed in was modified: %s" % (lst,))
    p.setup(check=False)
    for _ in range(case["resetup"]):
        p.setup(check=False)
    subs_ = ["a", "b"] if case["share"] else ["a"]
    want = {}
    for s in subs_:
        for i, v in enumerate(case["vs"]):
            base = np.atleast_1d(np.array(lst[i][2], dtype=float))
            if v["set"]:
                base = np.array(v["new"]).reshape(base.shape) * (2.0 if s == "b" else 1.0)
                p.set_val("%s.in%d" % (s, i), base, units=v["units"])
            want[s, i] = base
    p.run_model()
    meta = p.model.get_io_metadata(metadata_keys=["units"])
    for s in subs_:
        for i, v in enumerate(case["vs"]):
            for nm in ("%s.in%d" % (s, i), "%s.out|%d" % (s, i)):
                need(meta[nm]["units"] == v["units"], "%s declares units %s instead of %s" % (nm, meta[nm]["units"], v["units"]))
            nm = "%s.out|%d" % (s, i)
            close(gv(p, nm), want[s, i], 1e-12, 1e-12, nm)
            need(gv(p, nm).shape == want[s, i].shape, "%s shape" % nm)
            if v["units"]:
                u, f = SI[v["units"]]
                close(gv(p, nm, u), f(want[s, i]), 1e-7, 1e-7, "%s in %s" % (nm, u))
    # the pass-through is exactly an identity for derivatives too
    J = p.compute_totals(["a.out|0"], ["a.in0"], return_format="array")
    close(J, np.eye(J.shape[0]), 1e-12, 1e-12, "derivative of a relabelled variable")
    if len(case["vs"]) > 1 or case["vs"][0]["shape"]:
        ctx.ok("vars=%d" % len(case["vs"]))
