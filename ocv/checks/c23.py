"""C23: results depend on the current inputs only."""
import copy
import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

from ..core import sub, need
from .. import registry as G
from ..lib import close, bools, fl
import openconcept.utilities as UT
from openconcept.utilities.math import integrals as IN
from openconcept.aerodynamics import openaerostruct as OA

FAMS = dict(flow=["atmos", "aero", "phase"], power=["prop", "storage"], thermal=["thermal"], exchange=["hx", "duct"], shape=["geom", "costs"], weights=["weights"], util=["util"], solved=["implicit", "solved"])
OPS = ["run", "run", "totals", "totals", "linearize", "setup", "other", "apply"]


def vary(e, cfg, v, k, how):
    """The point v with a single input changed: k counts through the inputs, how says in which way."""
    v = dict(v)
    keys = sorted(n for n in v if n not in e.skip and n.split(".")[-1] not in e.skip)
    if not keys:
        return v
    key = keys[k % len(keys)]
    x = np.array(v[key], dtype=float)
    if x.ndim and x.size > 1 and np.ptp(x) and how != "scale" and e.family != "solved":
        # the same entries in another order
        y = x.ravel()[::-1] if how == "reverse" else np.roll(x.ravel(), 1)
        x = y.reshape(x.shape)
    elif np.any(x != np.round(x)):  # integers may be indices or counts
        r = e.rng(key, dict((n, u) for n, _, u, _ in e.meta(cfg)[0])[key])
        x = x * 1.01 if r is None else x + 0.02 * (0.5 * (r[0] + r[1]) - x)  # towards the middle of its range
    v[key] = x.tolist()
    if e.fix:
        e.fix(v, cfg)
    return v


def cases(entries):
    @st.composite
    def f(draw):
        e = entries[draw(st.integers(0, len(entries) - 1))]
        cfg = draw(e.strat_cfg())
        pts = [draw(G.values(e, cfg)) for _ in range(draw(st.integers(2, 3)))]
        # each step loads a point (or only some of its inputs) and does something with it
        steps = draw(st.lists(st.fixed_dictionaries(dict(pt=st.integers(0, len(pts) - 1), op=st.sampled_from(OPS), part=st.sampled_from([0, 0, 1, 2]))), min_size=1, max_size=5))
        other = entries[draw(st.integers(0, len(entries) - 1))] if draw(bools) else e
        ocfg = draw(other.strat_cfg())
        return dict(e=e.name, cfg=cfg, pts=pts, steps=steps, other=other.name, ocfg=ocfg, ov=draw(G.values(other, ocfg)),
                    # points that differ from the target in one input only, visited last
                    near=draw(st.lists(st.tuples(st.integers(0, 30), st.sampled_from(["reverse", "roll", "scale"])), max_size=3)), mode=draw(st.sampled_from(["fwd", "rev"])))
    return f


def results(p, e, cfg):
    p.run_model()
    names = [n for n, _ in e.meta(cfg)[1]]
    if not names:
        return {}, {}
    wrt = [i[0] for i in e.meta(cfg)[0] if i[0] not in e.skip and i[0].split(".")[-1] not in e.skip]
    y = {n: np.array(p.get_val(n), dtype=float) for n in names}
    J = {k: np.array(x, dtype=float) for k, x in p.compute_totals(of=names, wrt=wrt, return_format="flat_dict", driver_scaling=False).items()}
    return y, J


def guess(p, e):
    for k, g in e.guess.items():
        p.set_val(k, g)


def make(name, entries, quick, shards, rtol):
    solved = name == "solved"

    @sub("C23", name, cases(entries), quick=quick, thorough=quick * 25, shards=shards, rule="the model was evaluated at other inputs before the point compared")
    def t(c, ctx):
        e = G.by_name(c["e"])
        cfg = c["cfg"]
        given = copy.deepcopy(cfg)
        target = c["pts"][0]
        try:
            p0 = e.problem(cfg, mode=c["mode"])
            G.load(p0, e, cfg, target)
            guess(p0, e)
            want = results(p0, e, cfg)
            p = e.problem(cfg, mode=c["mode"])
            G.load(p, e, cfg, c["pts"][1])
            guess(p, e)
            changed = False
            for s in c["steps"]:
                v = c["pts"][s["pt"]]
                if s["op"] == "setup":
                    p.setup(check=False, mode=c["mode"])
                    G.load(p, e, cfg, v)
                    guess(p, e)
                    continue
                if s["part"]:
                    v = {k: x for i, (k, x) in enumerate(sorted(v.items())) if i % 2 == s["part"] - 1}
                if s["op"] == "other":
                    o = G.by_name(c["other"])
                    q = o.problem(c["ocfg"])
                    G.load(q, o, c["ocfg"], c["ov"])
                    guess(q, o)
                    results(q, o, c["ocfg"])
                    continue
                if e.fix and s["part"]:
                    v = c["pts"][s["pt"]]  # keep the inputs consistent with each other
                G.load(p, e, cfg, v)
                guess(p, e)
                if s["op"] in ("run", "totals", "linearize"):
                    p.run_model()
                    changed = True
                    if s["op"] == "totals":
                        results(p, e, cfg)
                    elif s["op"] == "linearize":
                        p.model.run_linearize()
                else:
                    p.final_setup()
                    p.model.run_apply_nonlinear()
            for k, how in c["near"][:1] if solved else c["near"]:
                G.load(p, e, cfg, vary(e, cfg, target, k, how))
                guess(p, e)
                p.run_model()
                changed = True
                if k % 2:
                    p.model.run_linearize()
            G.load(p, e, cfg, target)
            guess(p, e)
            got = results(p, e, cfg)
        except om.AnalysisError:
            ctx.skipped = True
            return
        except ValueError:
            if not solved:
                raise
            ctx.skipped = True  # a solver iterate left the range of the equations
            return
        need(cfg == given, "%s modified the options handed in" % e.name)
        for k, y in want[0].items():
            close(got[0][k], y, rtol, (1e-6 * np.max(np.abs(y)) + 1e-7) if solved else 0.0, "%s: %s after steps %s, compared with a fresh model" % (e.name, k, c["steps"]))
        for k, y in want[1].items():
            ok = np.isfinite(y)
            close(np.where(ok, got[1][k], 0), np.where(ok, y, 0), rtol, (1e-5 * np.max(np.abs(y[ok]), initial=0) + 1e-6) if solved else 0.0, "%s: derivative %s after steps %s, compared with a fresh model" % (e.name, k, c["steps"]))
        if c["near"] or changed and any(c["pts"][s["pt"]] != target for s in c["steps"] if s["op"] in ("run", "totals", "linearize")):
            ctx.ok(e.name)


# ------------------------------------------------------------------ objects handed in by the user
def _same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and bool(np.all(a == b))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(_same(a[k], b[k]) for k in a)
    return a == b


def _b_addsub(u):
    c = UT.AddSubtractComp()
    c.add_equation("y", u["names"], vec_size=u["sizes"], scaling_factors=u["scale"], units="m", lower=u["low"])
    return c


def _b_muldiv(u):
    c = UT.ElementMultiplyDivideComp()
    c.add_equation("y", u["names"], vec_size=u["sizes"], divide=u["divide"], input_units=u["units"])
    return c


def _b_cat(u):
    c = UT.VectorConcatenateComp()
    c.add_relation("y", u["names"], vec_sizes=u["sizes"], units="m")
    return c


def _b_split(u):
    c = UT.VectorSplitComp()
    c.add_relation(u["names"], "y", vec_sizes=u["sizes"], units="m")
    return c


def _b_sel(u):
    return UT.SelectorComp(num_nodes=2, input_names=u["names"])


def _b_label(u):
    return UT.DVLabel(u["labels"])


def _b_dict(u):
    c = UT.DictIndepVarComp(u["data"])
    for k in u["data"]["ac"]:
        c.add_output_from_dict("ac|" + k)
    return c


def _b_mesh(u):
    return OA.SectionPlanformMesh(num_x=1, num_y=u["sizes"], num_sections=len(u["sizes"]) + 1)


def _b_interp(u):
    return OA.ThicknessChordRatioInterp(num_y=u["sizes"], num_sections=len(u["sizes"]) + 1)


def _b_integ(u):
    return IN.OldIntegrator(num_nodes=5, method="simpson", time_setup="dt", segment_names=u["segs"], segments_to_count=u["count"])


def _b_deriv(u):
    return UT.FirstDerivative(num_intervals=3, segment_names=u["segs"])


BUILD = dict(addsub=_b_addsub, muldiv=_b_muldiv, cat=_b_cat, split=_b_split, sel=_b_sel, label=_b_label, dict=_b_dict, mesh=_b_mesh, interp=_b_interp, integ=_b_integ, deriv=_b_deriv)


@st.composite
def user_cases(draw):
    n = draw(st.integers(2, 4))
    k = draw(st.integers(2, 4))
    return dict(kind=draw(st.sampled_from(sorted(BUILD))), n=n, k=k, sizes=draw(st.lists(st.integers(1, 4), min_size=k, max_size=k)), one=draw(st.lists(bools, min_size=k, max_size=k)),
                scale=draw(st.lists(fl(-3, 3), min_size=k, max_size=k)), div=draw(st.lists(bools, min_size=k, max_size=k)), vals=draw(st.lists(fl(0.5, 4), min_size=k, max_size=k)), npy=draw(bools), cnt=draw(bools))


@sub("C23", "user_objects", user_cases, quick=600, thorough=15000, shards=2, rule="lists, arrays or dictionaries of the user are shared by two models, one of them set up twice")
def t_user(c, ctx):
    k, kind = c["k"], c["kind"]
    names = ["a%d" % i for i in range(k)]
    u = dict(names=names, units=["m", "s", "kg", "m"][:k], scale=np.array(c["scale"]) if c["npy"] and kind == "addsub" else list(c["scale"]), divide=list(c["div"]), low=np.full(c["n"], -1e6),
             sizes=[1 if o else c["n"] for o in c["one"]] if kind in ("addsub", "muldiv") else list(c["sizes"]),
             labels=[[n, n + "_out", np.full(2, v), "m"] for n, v in zip(names, c["vals"])], data={"ac": {n: {"value": v if i % 2 else np.array([v, 1.0]), "units": "m"} for i, (n, v) in enumerate(zip(names, c["vals"]))}},
             segs=["s%d" % i for i in range(k)], count=["s0"] if c["cnt"] else None)
    if kind == "addsub" or kind == "muldiv":
        u["sizes"][0] = c["n"]
    before = copy.deepcopy(u)

    def go(p):
        rs = np.random.RandomState(k)
        out = []
        for _, d in sorted(p.model.list_inputs(out_stream=None, prom_name=True, shape=True)):
            if kind == "sel" and d["prom_name"] == "selector":
                continue
            p.set_val(d["prom_name"], rs.uniform(0.5, 2, d["shape"]))
        p.run_model()
        for _, d in sorted(p.model.list_outputs(out_stream=None, prom_name=True)):
            out.append((d["prom_name"], np.array(p.get_val(d["prom_name"]))))
        return out

    res = []
    for i in range(2):
        p = om.Problem(reports=False)
        p.model.add_subsystem("c", BUILD[kind](u), promotes=["*"])
        p.setup(check=False)
        p.final_setup()
        res.append(go(p))
        need(_same(u, before), "%s modified an object handed in by the user: %s became %s", kind, before, u)
        p.setup(check=False)
        p.final_setup()
        res.append(go(p))
        need(_same(u, before), "%s modified an object handed in by the user in a second setup: %s became %s", kind, before, u)
    for r in res[1:]:
        need([x[0] for x in r] == [x[0] for x in res[0]], "%s: variables differ between models: %s / %s", kind, [x[0] for x in r], [x[0] for x in res[0]])
        for (nm, a), (_, b) in zip(res[0], r):
            close(b, a, 0, 0, "%s: %s in a second model built from the same objects" % (kind, nm))
    ctx.ok(kind)


for _n, _f in FAMS.items():
    _e = [e for e in G.family(*_f)]
    make(_n, _e, 40 * len(_e), 1 + len(_e) // 8 if _n != "solved" else 5, 1e-11 if _n != "solved" else 1e-4)
