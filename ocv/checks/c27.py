"""C27: results do not depend on the units in which quantities are handed over."""
import functools
import json
import os
import numpy as np
import openmdao.api as om
from openmdao.utils.units import is_compatible, convert_units
from hypothesis import strategies as st

from ..core import sub, need, Violation
from .. import registry as G
from ..lib import close, bools, fl, arr, sfl
from ..solve import NotConverged
import openconcept.utilities as UT
import openconcept.propulsion as P
from openconcept.propulsion.N3 import N3Hybrid
from openconcept.utilities.math import integrals as IN

UNITS = ("m ft inch cm km NM mm m**2 ft**2 cm**2 inch**2 m**3 ft**3 cm**3 s min h kg lbm g slug degK degC degF degR Pa kPa MPa psi bar lbf/ft**2 N/m**2 N kN lbf W kW hp J kJ W*h kW*h m/s kn ft/s ft/min km/h m/s**2 ft/s**2 "
         "rad deg rpm rad/s kg/s lbm/s kg/h lbm/min g/s kg/m**3 lbm/ft**3 g/cm**3 W/degK kW/degK W/degR W/m**2/degK W/cm**2/degK kW/m**2/degR W/m/degK W/cm/degK kg/m/s g/cm/s lbm/ft/s J/kg/degK kJ/kg/degK J/g/degR W/kg kW/kg hp/lbm "
         "W*h/kg kJ/kg J/g degK/s degK/min degR/s degK/W degR/kW degK/kW 1/s 1/min 1/h W/kJ kg/m lbm/ft lbm/ft**2 kg/m**2 Pa*s kg/N/s lbm/hp/h kg/W/s USD/kg USD/lbm").split()


@functools.lru_cache(None)
def alternatives(u):
    if u is None:
        return [None]
    return [u] + [a for a in UNITS if a != u and is_compatible(a, u)]


def other(u, k):
    a = alternatives(u)
    return a[k % len(a)]


def declared_units():
    """{entry: {variable: unit or null}}: the dimension each output is documented to have."""
    with open(os.path.join(os.path.dirname(__file__), "..", "data", "units.json")) as f:
        return json.load(f)


OUT = declared_units()
EXTRA = []


def find(name):
    return [e for e in EXTRA + G.ENTRIES if e.name == name][0]


def same_dimension(a, b):
    return (a is None) == (b is None) and (a is None or is_compatible(a, b))


def build(e, cfg, src=()):
    """The entry's problem; inputs listed in src [(name, shape, units, value)] come from a connected source."""
    p = om.Problem(reports=False)
    if src:
        iv = p.model.add_subsystem("src", om.IndepVarComp())
        for i, (n, shape, u, v) in enumerate(src):
            iv.add_output("x%d" % i, val=v, units=u)
    comp = e.make({k: v for k, v in cfg.items() if k != "_nudge"})
    G.nudge(comp, cfg)
    p.model.add_subsystem("c", comp, promotes=["*"])
    for i, (n, shape, u, v) in enumerate(src):
        p.model.connect("src.x%d" % i, n)
    if e.pre:
        e.pre(p.model, cfg)
    if e.solver:
        e.solver(p.model)
    p.setup(check=False)
    return p


def cases(entries):
    @st.composite
    def f(draw):
        e = entries[draw(st.integers(0, len(entries) - 1))]
        cfg = draw(e.strat_cfg())
        return dict(e=e.name, cfg=cfg, v=draw(G.values(e, cfg)), k=draw(st.lists(st.integers(0, 11), min_size=5, max_size=5)), src=draw(st.lists(bools, min_size=3, max_size=3)))
    return f


def go(p, e):
    for k, g in e.guess.items():
        p.set_val(k, g)
    try:
        p.run_model()
    except (om.AnalysisError, ValueError):
        if e.solver is None:
            raise
        raise NotConverged("no solution")


def make(name, entries, quick, shards, rtol):
    @sub("C27", name, cases(entries), quick=quick, thorough=quick * 25, shards=shards, rule="at least one input was supplied, or one output read, in another unit than its own")
    def t(c, ctx):
        e = find(c["e"])
        cfg = c["cfg"]
        ins, outs = e.meta(cfg)
        known = OUT.get(e.name, {})
        p0 = e.problem(cfg, derivs=e.solver is not None)
        try:
            for n, shape, u, _ in ins:
                if n in c["v"]:
                    p0.set_val(n, np.asarray(c["v"][n], dtype=float).reshape(shape), units=u)
            go(p0, e)
        except om.AnalysisError:
            ctx.skipped = True
            return
        except NotConverged:
            ctx.skipped = True
            return
        moved = 0
        # inputs
        give, src = [], []
        free = set(m["prom_name"] for a, m in p0.model.list_inputs(out_stream=None, prom_name=True) if p0.model._conn_global_abs_in2out[a].startswith("_auto_ivc"))
        for i, (n, shape, u, _) in enumerate(ins):
            last = n.split(".")[-1]
            r = known.get(n, "?")
            if r != "?":
                need(same_dimension(u, r), "%s: input %s is declared in %s, it is a quantity measured in %s", e.name, n, u, r)
            x = np.asarray(c["v"].get(n, p0.get_val(n)), dtype=float).reshape(shape)
            k = c["k"][i % 5] + i // 5
            a = other(u, k)
            y = x if u is None else np.asarray(convert_units(x, u, a))
            moved += a != u
            if c["src"][i % 3] and last not in e.skip and n not in e.skip and n in free:
                src.append((n, shape, a, y))
            else:
                give.append((n, a, y))
        p = build(e, cfg, src)
        for n, a, y in give:
            if a is None:
                p.set_val(n, y)
            else:
                p.set_val(n, y, units=a)
        try:
            go(p, e)
        except NotConverged:
            ctx.skipped = True
            return
        own = {m["prom_name"]: m["units"] for _, m in p.model.list_outputs(out_stream=None, units=True, prom_name=True)}
        for i, (n, shape) in enumerate(outs):
            u = own[n]
            r = known.get(n, "?")
            if r != "?":
                need(same_dimension(u, r), "%s: output %s is declared in %s, it is a quantity measured in %s", e.name, n, u, r)
            a = other(u, c["k"][(i + 2) % 5] + i // 5)
            y0 = np.asarray(p0.get_val(n), dtype=float)
            y = np.asarray(p.get_val(n, units=a) if a else p.get_val(n), dtype=float)
            back = y if a is None else np.asarray(convert_units(y, a, u))
            mag = np.max(np.abs(y0[np.isfinite(y0)]), initial=0)
            close(back, y0, rtol, rtol * mag + (1e-12 if e.solver is None else 1e-6), "%s: %s with the inputs handed over as %s" % (e.name, n, ["%s[%s]%s" % (q[0], q[1], "") for q in give] + ["%s[%s] connected" % (q[0], q[2]) for q in src]))
            moved += a != u
        if moved:
            ctx.ok(e.name)


# ------------------------------------------------------------------ propulsion systems and engine decks
def _sys(name, cls, opts=None, ranges=None, vec=True, **kw):
    EXTRA.append(G.Entry("systems", name, lambda c: cls(**c), cfg=opts or {}, vec=vec, ranges=ranges or {}, **kw))


_S = {"throttle": (0.2, 1.0), "ac|propulsion|engine|rating": (4e5, 2e6, "W"), "ac|propulsion|propeller|diameter": (1.8, 3.2, "m"), "fltcond|rho": (0.5, 1.25, "kg/m**3"), "fltcond|Utrue": (40, 130, "m/s"), "propulsor_active": (0, 1),
      "ac|propulsion|motor|rating": (3e5, 1e6, "W"), "ac|propulsion|generator|rating": (8e5, 2.2e6, "W"), "ac|weights|W_battery": (300, 2500, "kg"), "duration": (100, 4000, "s"), "prop1rpm": (1700, 2300, "rpm"), "hybridization": (0.05, 0.9)}
_sys("TurbopropPropulsionSystem", P.TurbopropPropulsionSystem, ranges=_S)
_sys("TwinTurbopropPropulsionSystem", P.TwinTurbopropPropulsionSystem, ranges=_S)
_sys("SingleSeriesHybridElectricPropulsionSystem", P.SingleSeriesHybridElectricPropulsionSystem, ranges=_S)
_sys("TwinSeriesHybridElectricPropulsionSystem", P.TwinSeriesHybridElectricPropulsionSystem, ranges=_S, vec="simpson", solver=G.newton())
_D = {"throttle": (0.3, 1.0), "fltcond|h": (500, 33000, "ft"), "fltcond|M": (0.15, 0.75), "hybrid_power": (0, 900, "kW"), "ac|propulsion|engine|rating": (1e4, 6e4, "lbf")}
_sys("CFM56", P.CFM56, ranges=_D)
_sys("N3", P.N3, ranges=_D)
_sys("N3Hybrid", N3Hybrid, ranges=_D)
_sys("RubberizedTurbofan", P.RubberizedTurbofan, opts=dict(engine=st.sampled_from(["CFM56", "N3"]), hydrogen=bools), ranges=_D)


# ------------------------------------------------------------------ utilities that take units as an option
DIM = {"length": ["m", "ft", "km", "inch"], "mass": ["kg", "lbm", "g"], "force": ["N", "lbf", "kN"], "power": ["W", "kW", "hp"], "temp": ["degK", "degR"], "offset": ["degC", "degF", "degK"], "speed": ["m/s", "kn", "ft/min"], "area": ["m**2", "ft**2"]}
TIME = ["s", "min", "h"]


@st.composite
def option_cases(draw):
    kind = draw(st.sampled_from(["addsub", "muldiv", "cat", "split", "select", "max", "min", "interp", "deriv", "integ", "integ_rate", "old", "label", "dict"]))
    dim = draw(st.sampled_from(sorted(DIM)))
    if kind in ("addsub", "muldiv", "deriv", "integ", "integ_rate", "old") and dim == "offset":
        dim = "temp"  # sums, products and rates of temperatures need an absolute scale
    u = DIM[dim]
    n = draw(st.sampled_from([3, 5, 7])) if kind in ("deriv", "integ", "integ_rate", "old") else draw(st.integers(1, 5))
    pick = lambda s: draw(st.sampled_from(s))  # noqa: E731
    return dict(kind=kind, n=n, dim=dim, m=draw(st.integers(2, 4)), a=pick(u), b=pick(u), si=pick(u), so=pick(u), ta=pick(TIME), tb=pick(TIME), ts=pick(TIME), dims=[pick(sorted(set(DIM) - {"offset"})) for _ in range(4)], ks=[draw(st.integers(0, 11)) for _ in range(10)],
                x=draw(arr(30, sfl(40.0))), sc=draw(arr(4, sfl(3.0))), div=draw(arr(4, bools)), dt=draw(fl(0.2, 5.0)), order=pick([2, 4]), method=pick(["simpson", "bdf3"]), sel=draw(arr(5, st.integers(0, 3))))


def _comp(c, u, t, unit_of):
    """The component with all of its unit options expressed in u (and t for time), and the units its inputs and outputs then have."""
    k, n, m = c["kind"], c["n"], c["m"]
    nm = ["a%d" % i for i in range(m)]
    if k == "addsub":
        return UT.AddSubtractComp("y", nm, vec_size=n, scaling_factors=c["sc"][:m], units=u), dict.fromkeys(nm, (n, u)), {"y": u}
    if k == "muldiv":
        us = [unit_of(i) for i in range(m)]
        out = "*".join("(%s)**%d" % (q, -1 if d else 1) for q, d in zip(us, c["div"]))
        return UT.ElementMultiplyDivideComp("y", nm, vec_size=n, divide=c["div"][:m], input_units=us), {a: (n, q) for a, q in zip(nm, us)}, {"y": out}
    if k == "cat":
        return UT.VectorConcatenateComp("y", nm, vec_sizes=[n] * m, units=u), dict.fromkeys(nm, (n, u)), {"y": u}
    if k == "split":
        return UT.VectorSplitComp(nm, "y", vec_sizes=[n] * m, units=u), {"y": (n * m, u)}, dict.fromkeys(nm, u)
    if k == "select":
        return UT.SelectorComp(num_nodes=n, input_names=nm, units=u), dict({a: (n, u) for a in nm}, selector=(n, None)), {"result": u}
    if k in ("max", "min"):
        return (UT.MaxComp if k == "max" else UT.MinComp)(num_nodes=n, units=u), {"array": (n, u)}, {k: u}
    if k == "interp":
        return UT.LinearInterpolator(num_nodes=n + 1, units=u), {"start_val": (1, u), "end_val": (1, u)}, {"vec": u}
    if k == "deriv":
        o = c["order"] if n > 4 else 2
        return UT.FirstDerivative(num_intervals=(n - 1) // 2, order=o, quantity_units=u, diff_units=t), {"q": (n, u), "dt": (1, t)}, {"dqdt": "(%s)/(%s)" % (u, t)}
    if k in ("integ", "integ_rate"):
        g = om.Group()
        i = UT.Integrator(num_nodes=n, method=c["method"] if n > 4 else "simpson", diff_units=t, time_setup="dt")
        if k == "integ":
            i.add_integrand("q", rate_name="r", units=u, start_name="q0", end_name="qf")
            qu = u
        else:
            i.add_integrand("q", rate_name="r", rate_units="(%s)/s" % u, start_name="q0", end_name="qf")
            qu = "(%s)/s*%s" % (u, t)
        g.add_subsystem("i", i, promotes=["*"])
        return g, {"r": (n, "(%s)/(%s)" % (u, t) if k == "integ" else "(%s)/s" % u), "q0": (1, qu), "dt": (1, t)}, {"q": qu, "qf": qu}
    if k == "old":
        return IN.OldIntegrator(num_nodes=n, method=c["method"] if n > 4 else "simpson", quantity_units=u, diff_units=t, time_setup="duration"), {"dqdt": (n, "(%s)/(%s)" % (u, t)), "q_initial": (1, u), "duration": (1, t)}, {"q": u, "q_final": u}
    if k == "label":
        return UT.DVLabel([["x", "y", np.ones(n), u]]), {"x": (n, u)}, {"y": u}
    raise AssertionError(k)


@sub("C27", "options", option_cases, quick=900, thorough=25000, shards=3, rule="the component was built in two different units")
def t_options(c, ctx):
    k, n = c["kind"], c["n"]
    if k == "dict":
        d = {"ac": {"geom": {"x": {"value": np.array(c["x"][:n]), "units": c["a"]}, "y": {"value": 2.5, "units": c["b"]}}}}
        p = om.Problem(reports=False)
        iv = p.model.add_subsystem("d", UT.DictIndepVarComp(d), promotes=["*"])
        iv.add_output_from_dict("ac|geom|x")
        iv.add_output_from_dict("ac|geom|y")
        p.setup(check=False)
        p.final_setup()
        for nm, v, u in (("ac|geom|x", c["x"][:n], c["a"]), ("ac|geom|y", 2.5, c["b"])):
            close(p.get_val(nm, units=c["so"]), convert_units(np.atleast_1d(v), u, c["so"]), 1e-12, 1e-12, "dictionary entry in %s read in %s" % (u, c["so"]))
        if c["a"] != c["so"]:
            ctx.ok(k)
        return
    res, read = [], {}
    for which in (0, 1):
        u, t = (c["a"], c["ta"]) if which == 0 else (c["b"], c["tb"])
        comp, ins, outs = _comp(c, u, t, lambda i: (lambda us: us[c["ks"][i + 4 * which] % len(us)])(DIM[c["dims"][i]]))
        if k == "muldiv" and is_compatible(outs["y"], "m/ft"):
            ctx.skipped = True  # the quantities cancel: no unit left
            return
        p = om.Problem(reports=False)
        iv = p.model.add_subsystem("src", om.IndepVarComp())
        p.model.add_subsystem("c", comp, promotes=["*"])
        # the same physical values in both models, expressed in a unit of the supplier's choice
        for i, (nm, (size, own)) in enumerate(sorted(ins.items())):
            v = np.array(c["x"][3 * i:3 * i + size] if size <= 20 - 3 * i else np.resize(c["x"], size))
            if nm in ("dt", "duration"):
                v, su = np.array([c["dt"] * 60]), "s"
            elif nm == "selector":
                v, su = np.array([s % c["m"] for s in c["sel"][:n]], dtype=float), None
            elif k == "muldiv":
                v, su = 0.5 + np.abs(v), DIM[c["dims"][int(nm[1:])]][0]
            elif nm in ("r", "dqdt"):
                su = "(%s)/(%s)" % (c["si"], c["ts"] if k != "integ_rate" else "s")
            elif nm == "q0" and k == "integ_rate":
                su = "(%s)/s*%s" % (c["si"], c["ts"])
            else:
                su = c["si"]
            if i % 2 == which and nm != "selector":  # through a connection in one model, set directly in the other
                iv.add_output("s%d" % i, val=v, units=su)
                p.model.connect("src.s%d" % i, nm)
                ins[nm] = None
            else:
                ins[nm] = (v, su)
        if not any(x is None for x in ins.values()):
            iv.add_output("unused", val=1.0)
        p.setup(check=False)
        for nm, x in ins.items():
            if x is not None:
                p.set_val(nm, x[0], units=x[1])
        p.run_model()
        own = {m["prom_name"]: m["units"] for _, m in p.model.list_outputs(out_stream=None, units=True, prom_name=True)}
        r = {}
        for nm, ou in outs.items():
            need(same_dimension(own[nm], ou), "%s built with units %s, %s: output %s has units %s, expected those of %s", k, u, t, nm, own[nm], ou)
            r[nm] = np.array(p.get_val(nm, units=read.setdefault(nm, ou)), dtype=float)  # both read in the unit of the first
        res.append(r)
    for nm in res[0]:
        mag = np.max(np.abs(res[0][nm]), initial=0)
        close(res[1][nm], res[0][nm], 1e-6, 1e-7 * mag + 1e-9, "%s: %s of the same quantities in a model built with %s / %s instead of %s / %s" % (k, nm, c["b"], c["tb"], c["a"], c["ta"]))
    if c["a"] != c["b"] or c["ta"] != c["tb"] or k == "muldiv":
        ctx.ok(k)


FAMS = dict(flow=["atmos", "aero", "phase", "geom", "costs"], power=["prop", "storage"], thermal=["thermal"], exchange=["hx", "duct"], weights=["weights"], solved=["implicit", "solved"])
for _n, _f in FAMS.items():
    _e = [e for e in G.family(*_f) if not e.warn_only]
    make(_n, _e, 30 * len(_e), 1 + len(_e) // 8 if _n != "solved" else 4, 1e-6 if _n != "solved" else 1e-4)
make("systems", EXTRA, 150, 4, 1e-5)
