"""C28: ill-posed requests are refused and operation outside a model's stated range is flagged, exactly when it occurs."""
import warnings
import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

from ..core import sub, need, Violation, HarnessError
from .. import registry as G
from ..lib import fl, arr, bools, sfl, tail, build, gv, Interpreter

import openconcept.utilities as UT
import openconcept.propulsion as P
from openconcept.aerodynamics.openaerostruct import mesh_gen as MG, drag_polar as DP, aerostructural as AP
from openconcept.aerodynamics import ParasiteDragCoefficient_JetTransport, ParasiteDragCoefficient_BWB
from openconcept.mission import BasicMission, FullMissionAnalysis, FullMissionWithReserve, MissionWithReserve
from openconcept.mission.mission_groups import IntegratorGroup
from openconcept.thermal import heat_exchanger as HX, ducts as DU, heat_pipe as HP, manifold as MF
from openconcept.utilities import visualization as VZ
from openconcept.utilities.math import derivatives as DE, integrals as IN


def outcome(fn):
    """("error", type, text) or ("ok", [user warnings], result)."""
    with warnings.catch_warnings(record=True) as w, np.errstate(all="ignore"):
        warnings.simplefilter("always")
        try:
            r = fn()
        except (HarnessError, MemoryError):
            raise
        except Exception as e:  # noqa: BLE001 - any refusal counts, its kind is compared by the caller
            return ("error", e, None)
    return ("ok", [str(x.message) for x in w if issubclass(x.category, UserWarning) and not issubclass(x.category, (om.OpenMDAOWarning, DeprecationWarning))], r)


def judge(bad, out, what, exc=Exception):
    """bad: the request is ill-posed and has to be refused; otherwise it has to be accepted."""
    if bad:
        need(out[0] == "error", "%s was accepted instead of refused", what)
        need(isinstance(out[1], exc), "%s was refused with %s (%s)", what, type(out[1]).__name__, out[1])
    elif out[0] == "error":
        raise Violation("%s was refused: %s: %s" % (what, type(out[1]).__name__, out[1]))


# ------------------------------------------------------------------ conditions at single nodes
# component, the inputs {name: (low, high)}, the watched input, its allowed values, values outside, values on the allowed edge
def _spec():
    far = [-1e-9, -0.3, -2.0]
    return {
        "split": (lambda n: MF.FlowSplit(num_nodes=n), "mdot_split_fraction", (0.0, 1.0), far + [1.0 + 1e-9, 1.7], [0.0, 1.0], "error", RuntimeWarning),
        "mach": (lambda n: DU.DuctExitMachNumber(num_nodes=n), "nozzle_pressure_ratio", (0.05, 1.0), far + [0.0], [1e-3], "error", ValueError),
        "heat addition": (lambda n: DU.HeatAdditionPressureLoss(num_nodes=n), "mdot", (0.05, 4.0), far + [0.0], [1e-3], "error", ValueError),
        "j_f": (lambda n: HX.OffsetStripFinData(num_nodes=n), "Re_dh_cold", (100.0, 9000.0), [-1e-3, -50.0, 0.0], [1e-2], "error", om.AnalysisError),
        "film": (lambda n: HX.ConvectiveCoefficient(num_nodes=n), "Nu_dh_cold", (2.0, 60.0), [-1e-3, -5.0, 0.0], [1e-2], "error", om.AnalysisError),
        "fin": (lambda n: HX.FinEfficiency(num_nodes=n), "h_conv_cold", (30.0, 800.0), [-1e-3, -50.0, 0.0], [1e-2], "error", om.AnalysisError),
        "ammonia": (lambda n: HP.HeatPipeVaporTempDrop(num_nodes=n), "temp", (-10.0, 100.0), [-10.0001, -40.0, 100.0001, 160.0], [-10.0, 100.0], "warning", None),
    }


@st.composite
def nodes(draw):
    kind = draw(st.sampled_from(sorted(_spec()) + ["qmax", "qmax", "qmax", "selector"]))
    n = draw(tail(1, 6, 23))
    c = dict(kind=kind, n=n, bad=draw(bools), pos=draw(st.integers(0, 40)), more=draw(bools), pick=draw(st.integers(0, 9)), edge=draw(bools), x=draw(arr(7, fl(0, 1))), y=draw(arr(7, fl(0.02, 0.98))), lim=draw(fl(0.3, 1.1)), over=draw(st.sampled_from([1e-6, 0.01, 0.5])), again=draw(bools), ni=draw(st.integers(1, 5)))
    return c


@sub("C28", "nodes", nodes, quick=1500, thorough=40000, shards=4, rule="an out-of-range node, or values on the edge of the range")
def t_nodes(c, ctx):
    n, k = c["n"], c["kind"]
    pos = c["pos"] % n
    u = np.array([c["x"][i % 7] for i in range(n)])
    if k == "qmax":
        # q against a threshold of q_max, node by node
        qm = 500 + 5000 * np.array([c["y"][(3 * i) % 7] for i in range(n)])
        q = c["lim"] * qm * np.minimum(u, 1 - 1e-6)
        if c["edge"]:
            q[(pos + 1) % n] = c["lim"] * qm[(pos + 1) % n] * (1 - 1e-6)
        if c["bad"]:
            q[pos] = c["lim"] * qm[pos] * (1 + c["over"])
        p = build(HP.QMaxWarning(num_nodes=n, q_max_warn=c["lim"]), {"q": (q, "W"), "q_max": (qm, "W")})
        out = outcome(p.run_model)
        judge(False, out, "heat pipe load below or above its limit")
        need(bool(out[1]) == c["bad"], "heat transfer of %s of the maximum with a warning threshold of %g: %s", (q / qm).tolist(), c["lim"], "%d warnings" % len(out[1]) if out[1] else "no warning")
        if c["bad"]:
            txt = "%2.1f" % (np.max(q / qm) * 100)
            need(txt in out[1][0], "the warning should report a load of %s%%: %s", txt, out[1][0])
        bad, ok = c["bad"], q
        if c["again"]:  # flagged again, or no longer, at the next evaluation
            p.set_val("q", q if not c["bad"] else q * 0.5 / (1 + c["over"]), units="W")
            out = outcome(p.run_model)
            need(out[0] == "ok" and not out[1], "a load within the limit after one that was %s: %s", "above it" if c["bad"] else "within it", out[1])
            if c["bad"]:
                p.set_val("q", q, units="W")
                out = outcome(p.run_model)
                need(out[0] == "ok" and out[1], "a load above the limit for the second time: no warning")
    elif k == "selector":
        nm = ["i%d" % i for i in range(c["ni"])]
        sel = np.array([int(v * 7) % c["ni"] for v in u], float)
        if c["bad"]:
            sel[pos] = [-1, c["ni"], c["ni"] + 3, -0.6 - c["ni"]][c["pick"] % 4]
        p = build(UT.SelectorComp(num_nodes=n, input_names=nm), dict({s: np.full(n, 3.0 + i) for i, s in enumerate(nm)}, selector=sel))
        out = outcome(p.run_model)
        if c["bad"]:
            need(out[0] == "error" or out[1], "a selection of %s among %d inputs was accepted silently", sel.tolist(), c["ni"])
        else:
            judge(False, out, "selection %s among %d inputs" % (sel.tolist(), c["ni"]))
            need(not out[1], "selection %s among %d inputs: %s", sel.tolist(), c["ni"], out[1])
    else:
        make, name, (lo, hi), outside, edge, how, exc = _spec()[k]
        x = lo + (hi - lo) * u
        if c["edge"]:
            x[(pos + 1) % n] = edge[c["pick"] % len(edge)]
        if c["bad"]:
            x[pos] = outside[c["pick"] % len(outside)]
            if c["more"]:
                x[(pos + 2) % n] = outside[(c["pick"] + 1) % len(outside)]
        p = build(make(n))
        for nme, m in _inputs(p):
            if nme == name:
                p.set_val(nme, x, units=m["units"])
            else:
                r = dict(G.R, T_in_hot=(300, 370, "degK")).get(nme)
                if r is not None:
                    v = r[0] + (r[1] - r[0]) * c["y"][len(nme) % 7]
                    p.set_val(nme, np.full(m["shape"], v), units=r[2] if len(r) > 2 else None)
        out = outcome(p.run_model)
        what = "%s with %s = %s" % (k, name, x.tolist())
        if how == "error":
            judge(c["bad"], out, what, exc)
            if not c["bad"]:
                need(not out[1], "%s: %s", what, out[1])
        else:
            judge(False, out, what)
            need(bool(out[1]) == c["bad"], "%s: %s", what, out[1] or "no warning")
        if c["again"] and c["bad"]:  # usable again once the input is back in range
            p.set_val(name, lo + (hi - lo) * (0.2 + 0.6 * u))
            out = outcome(p.run_model)
            judge(False, out, what + ", then back in range")
            need(not out[1], "%s, then back in range: %s", what, out[1])
            p.set_val(name, x)
            out = outcome(p.run_model)
            if how == "error":
                judge(True, out, what + " for the second time", exc)
            else:
                judge(False, out, what + " for the second time")
                need(bool(out[1]), "%s for the second time: no warning", what)
    if c["bad"] or c["edge"]:
        ctx.ok(k)


def _inputs(p):
    p.final_setup()
    return [(m["prom_name"], m) for _, m in p.model.list_inputs(out_stream=None, prom_name=True, units=True, shape=True)]


# ------------------------------------------------------------------ configurations
AC = dict(num_nodes=3)


class Plane(om.Group):
    """Never set up: the refusals below come before the aircraft model is built."""

    def initialize(self):
        self.options.declare("num_nodes", default=1)
        self.options.declare("flight_phase", default=None)


@st.composite
def setups(draw):
    kind = draw(st.sampled_from(["sections", "sections", "sections", "polar_y", "surf", "surf", "plot", "plot", "engine", "blades", "rule", "transition", "drag", "init", "init", "deriv", "deriv", "dict", "time", "odd", "method"]))
    return dict(kind=kind, bad=draw(bools), ns=draw(st.integers(2, 5)), v=draw(st.integers(0, 50)), w=draw(st.integers(0, 50)), ny=draw(arr(6, st.integers(1, 4))), form=draw(st.sampled_from(["int", "list", "tuple", "array"])), off=draw(st.sampled_from([-1, 1, 2])), n=draw(st.integers(1, 5)), f=draw(arr(4, fl(0.1, 3.0))))


def _setup(comp, pre=None):
    p = build(comp, pre=pre)
    p.final_setup()
    return p


@sub("C28", "configurations", setups, quick=1500, thorough=30000, shards=6, rule="all cases")
def t_setups(c, ctx):
    k, bad, v, w = c["kind"], c["bad"], c["v"], c["w"]
    if k == "sections":
        cls = [MG.SectionPlanformMesh, MG.ThicknessChordRatioInterp, MG.SectionLinearInterp][v % 3]
        ns, num_y = c["ns"], {"int": c["ny"][0], "list": list, "tuple": tuple, "array": np.array}[c["form"]]
        if bad and w % 3 == 0:
            ns = [1, 0, -1][v % 3]
            num_y = c["ny"][0] if w % 2 else c["ny"][:1]
        else:
            m = ns - 1 + (c["off"] if bad else 0)
            if c["form"] == "int":
                if bad:
                    num_y = c["ny"][:m] if m > 0 else []
            else:
                num_y = num_y(c["ny"][:m] if m > 0 else [])
        judge(bad, outcome(lambda: _setup(cls(num_sections=ns, num_y=num_y))), "%s with %d sections and num_y=%r" % (cls.__name__, ns, num_y), ValueError)
    elif k == "polar_y":
        num_y = {"list": list, "tuple": tuple, "array": np.array, "int": list}[c["form"]](c["ny"][:2]) if bad else c["ny"][0] + 1
        judge(bad, _guard(lambda: _setup(DP.VLMDragPolar(geometry="trapezoidal", num_x=1, num_y=num_y, Mach_train=np.array([0.1, 0.3]), alpha_train=np.array([0.0, 3.0]), alt_train=np.array([0.0, 5e3])))), "trapezoidal drag polar with num_y=%r" % (num_y,), ValueError)
    elif k == "surf":
        base = [{}, {"CD0": 0.01}, {"a": np.array([1.0, 2.0, 3.0]), "k": 0.3}, {"sym": True, "name": "x"}][v % 4]
        other = {q: (np.array(x) if isinstance(x, np.ndarray) else x) for q, x in base.items()}
        if bad:
            t = w % 4
            if t == 0 or not base:
                other["boof"] = 1.0
            elif t == 1:
                other.pop(sorted(other)[0])
            else:
                q = sorted(other)[w // 4 % len(other)]
                x = other[q]
                if isinstance(x, np.ndarray):
                    x[-1] += 1e-6 if t == 2 else 1.0
                else:
                    other[q] = (not x) if isinstance(x, bool) else x + "y" if isinstance(x, str) else x * (1 + 1e-6)
        cls = [DP.VLMDataGen, AP.OASDataGen][v // 4 % 2]
        first, second = (base, other) if w % 2 else (other, base)
        n_same = 1 + v // 8 % 2

        def go():
            p = om.Problem(reports=False)
            for i in range(n_same):
                p.model.add_subsystem("same%d" % i, cls(surf_options=dict(first)))
            p.model.add_subsystem("last", cls(surf_options=dict(second)))
            p.setup(check=False)
            p.final_setup()
        judge(bad, _guard(go), "%s instances with surface options %r and %r in one model" % (cls.__name__, first, second), ValueError)
    elif k == "plot":
        import matplotlib.pyplot as plt
        nx, ny = 1 + v % 3, 2 + w % 3
        mesh = np.zeros((nx + 1, ny + 1, 3))
        mesh[:, :, 0] = np.linspace(0, 2, nx + 1)[:, None]
        mesh[:, :, 1] = np.linspace(-9, 0, ny + 1)
        kw = {}
        if v % 2:
            kw["wing"] = (["Left", "middle", "", None, 0, "l"] if bad and w % 2 else ["left", "right", "both"])[v // 2 % 3 + (3 if bad and w % 2 and w % 3 else 0)]
        if bad and not ("wing" in kw and w % 2):
            kw["force_dir"] = [-1, 3, "z", 1.5, None][w % 5]
        elif w % 3:
            kw["force_dir"] = w % 3

        def draw_it():
            try:
                VZ.plot_OAS_force_contours(mesh, np.ones((nx, ny, 3)) + np.arange(ny)[None, :, None] + np.arange(nx)[:, None, None], **kw)
            finally:
                plt.close("all")
        judge(bad, outcome(draw_it), "force contours with %r" % (kw,), ValueError)
    elif k == "engine":
        eng = (["n3", "CFM", "", None, "N3Hybrid"] if bad else ["N3", "CFM56"])[v % (5 if bad else 2)]
        judge(bad, outcome(lambda: P.RubberizedTurbofan(num_nodes=c["n"], engine=eng) if not bad else _setup(P.RubberizedTurbofan(num_nodes=c["n"], engine=eng))), "engine deck %r" % (eng,))
    elif k == "blades":
        nb = [2, 5, 6, 1, 0, 8][v % 6] if bad else [3, 4][v % 2]
        judge(bad, outcome(lambda: _setup(P.SimplePropeller(num_nodes=c["n"], num_blades=nb), pre=lambda m: [m.set_input_defaults(q, x, units=u) for q, x, u in (("diameter", 2.0, "m"), ("power_rating", 5e5, "W"))])), "%d-bladed propeller" % nb, NotImplementedError)
    elif k == "rule":
        rule = (["Fraction", "ratio", "", None, "fixed "] if bad else ["fraction", "fixed"])[v % (5 if bad else 2)]
        judge(bad, outcome(lambda: _setup(P.PowerSplit(num_nodes=c["n"], rule=rule))), "split rule %r" % (rule,), ValueError)
    elif k == "transition":
        if not bad:
            ctx.skipped = True  # accepted ones fly whole missions elsewhere
            return
        cls = [FullMissionAnalysis, FullMissionWithReserve][v % 2]
        judge(True, outcome(lambda: _setup(cls(num_nodes=3, aircraft_model=Plane, transition_method=["ODE", "simple", "", None][w % 4]))), "unknown transition method", IOError)
    elif k == "drag":
        cls = [ParasiteDragCoefficient_JetTransport, ParasiteDragCoefficient_BWB][v % 2]
        conf = (["landing", "Clean", "", None] if bad else ["clean", "takeoff"])[w % (4 if bad else 2)]
        judge(bad, outcome(lambda: _setup(cls(num_nodes=c["n"], configuration=conf))), "%s in configuration %r" % (cls.__name__, conf))
    elif k == "init":
        m = 2 + c["n"]
        nm = ["x%d" % i for i in range(m)]
        first = [None, "y"][w % 2] if not bad else [3, 1.5, {}, True, b"y"][w % 5]
        cls = [UT.AddSubtractComp, UT.ElementMultiplyDivideComp, UT.VectorConcatenateComp, UT.VectorSplitComp][v % 4]
        many = bad and w % 3 == 0

        def go():
            if many:
                return cls([nm[0], nm[1]], nm)
            if first is None:
                return cls()
            if cls is UT.VectorSplitComp:
                return cls(nm, first, vec_sizes=[2] * m) if first is not None else cls()
            if cls is UT.VectorConcatenateComp:
                return cls(first, nm, vec_sizes=[2] * m)
            return cls(first, nm)
        judge(bad, outcome(go), "%s(%r, ...)" % (cls.__name__, "list" if many else first))
    elif k == "deriv":
        order, ni, ns = [2, 4][v % 2], 1 + w % 4, 1 + v % 3
        q, dts = np.arange((2 * ni + 1) * ns, dtype=float), np.array(c["f"][:ns])
        ill = order == 4 and ni < 2
        if bad:
            t = v // 3 % 3
            if t == 0:
                order, ill = [1, 3, 6, 0][w % 4], True
            elif t == 1:
                q, ill = (q[:-1] if w % 2 else np.append(q, 1.0)), True
            else:
                dts, ill = (dts[:-1] if w % 2 else np.append(dts, 1.0)), True
        fn = [lambda: DE.first_deriv(dts, q, n_segments=ns, n_simpson_intervals_per_segment=ni, order=order), lambda: DE.first_deriv_partials(dts, q, n_segments=ns, n_simpson_intervals_per_segment=ni, order=order)][w // 2 % 2]
        judge(ill, outcome(fn), "differentiation of %d values with %d time steps, %d segments of %d intervals, order %r" % (len(q), len(dts), ns, ni, order), ValueError)
    elif k == "dict":
        d = {"ac": {"geom": {"S": {"value": 3.0, "units": "m**2"}, "n": {"value": np.array([1.0, 2.0])}, "bad": {"units": "m"}}, "w": {"value": 2}}}
        name = (["ac|geom|bad", "ac|geom|T", "ac|geom", "ac|w|S", "ad|w", "ac", "ac|geom|S|x", ""] if bad else ["ac|geom|S", "ac|geom|n", "ac|w"])[v % (8 if bad else 3)]
        cls = [UT.DictIndepVarComp, UT.DymosDesignParamsFromDict][0]

        def go():
            iv = cls(d)
            iv.add_output_from_dict(name)
            _setup(iv)
        judge(bad, outcome(go), "dictionary entry %r" % name)
    elif k == "time":
        ts = (["Dt", "time", "", None, "bound"] if bad else ["dt", "duration", "bounds"])[v % (5 if bad else 3)]

        def go():
            if w % 2:
                return _setup(IN.OldIntegrator(num_nodes=2 * c["n"] + 3, time_setup=ts))
            g = om.Group()
            i = g.add_subsystem("i", UT.Integrator(num_nodes=2 * c["n"] + 3, time_setup=ts), promotes=["*"])
            i.add_integrand("q", rate_name="r", units="m")
            return _setup(g)
        judge(bad, outcome(go), "time_setup=%r" % (ts,), ValueError)
    elif k == "odd":
        n = 2 * c["n"] + (0 if bad else 1)

        def go():
            if w % 2:
                return _setup(IN.OldIntegrator(num_nodes=n, method=["simpson", "bdf3"][v % 2] if n > 4 else "simpson"))
            g = om.Group()
            i = UT.Integrator(num_nodes=n, method=["simpson", "bdf3"][v % 2] if n > 4 else "simpson")
            g.add_subsystem("i", i, promotes=["*"])
            i.add_integrand("q", rate_name="r", units="m")
            return _setup(g)
        judge(bad, outcome(go), "integration over %d nodes" % n, ValueError)
    else:
        # both ways of stating the units of an integrand
        u, r = [(None, None), ("m", None), (None, "m/s")][v % 3] if not bad else ("m", "m/s")

        def go():
            g = om.Group()
            i = UT.Integrator(num_nodes=5, diff_units="s")
            g.add_subsystem("i", i, promotes=["*"])
            i.add_integrand("q", rate_name="r", units=u, rate_units=r)
            return _setup(g)
        judge(bad, outcome(go), "integrand with units=%r and rate_units=%r" % (u, r), ValueError)
    ctx.ok(k + (" refused" if bad else " accepted"))


_NEW = Interpreter(DP, AP)


def _guard(fn):
    """The drag polars remember their surface options on the class: as in a new interpreter, before and after."""
    _NEW.restart()
    try:
        return outcome(fn)
    finally:
        _NEW.restart()


# ------------------------------------------------------------------ warnings about missing units
@st.composite
def silent(draw):
    return dict(kind=draw(st.sampled_from(["integ", "integ_rate", "old", "deriv", "state", "state"])), q=draw(st.sampled_from([None, "m", "kg"])), d=draw(st.sampled_from([None, "s", "min"])), n=draw(st.integers(1, 3)), miss=draw(arr(3, bools)), k=draw(st.integers(1, 3)))


class _Rates(om.ExplicitComponent):
    def initialize(self):
        self.options.declare("n")
        self.options.declare("tags")

    def setup(self):
        self.add_input("x", shape=(self.options["n"],))
        for i, t in enumerate(self.options["tags"]):
            self.add_output("r%d" % i, shape=(self.options["n"],), units="kg/s" if "state_units:kg" in t else None, tags=t)


@sub("C28", "units", silent, quick=300, thorough=4000, shards=2, rule="all cases")
def t_silent(c, ctx):
    k, n, q, d = c["kind"], 2 * c["n"] + 3, c["q"], c["d"]
    if k == "state":
        tags = []
        for i in range(c["k"]):
            t = ["integrate", "state_name:q%d" % i] + ([] if c["miss"][i] else ["state_units:kg"])
            tags.append(t)
        want = ["q%d" % i for i in range(c["k"]) if c["miss"][i]]

        class Gr(IntegratorGroup):
            def setup(self):
                self.add_subsystem("ivc", om.IndepVarComp("duration", val=2.0, units="s"), promotes=["*"])
                self.add_subsystem("c", _Rates(n=n, tags=tags))
        out = outcome(lambda: _setup(_named(Gr(num_nodes=n))))
        if out[0] == "error":
            raise Violation("states %s, without units: %s: refused with %s" % (tags, want, out[1]))
        got = [x for x in out[1] if "units" in x]
        need(len(got) == len(want) and all(any("c.r%s" % w[1:] in x for x in got) for w in want), "states without units %s: warnings %s", want, got)
        ctx.ok("state")
        return

    def go():
        if k == "old":
            return _setup(IN.OldIntegrator(num_nodes=n, quantity_units=q, diff_units=d))
        if k == "deriv":
            return _setup(UT.FirstDerivative(num_intervals=c["n"] + 1, quantity_units=q, diff_units=d))
        g = om.Group()
        i = UT.Integrator(num_nodes=n, diff_units=d)
        g.add_subsystem("i", i, promotes=["*"])
        i.add_integrand("q", rate_name="r", **({"units": q} if k == "integ" else {"rate_units": q}))
        return _setup(g)
    out = outcome(go)
    judge(False, out, "%s of a quantity in %s over a variable in %s" % (k, q, d))
    need(bool(out[1]) == (d is None and q is not None), "%s of a quantity in %s over a variable in %s: %s", k, q, d, out[1] or "no warning")
    ctx.ok(k)


def _named(g):
    top = om.Group()
    top.add_subsystem("phase", g)
    return top


# ------------------------------------------------------------------ nothing well-posed is refused or flagged
@st.composite
def valid(draw):
    return draw(G.entry_case(VALID))


VALID = [e for e in G.ENTRIES if e.solver is None and not e.warn_only]


@sub("C28", "accepted", valid, quick=2500, thorough=40000, shards=6, rule="all cases")
def t_valid(c, ctx):
    e = G.by_name(c["e"])
    if e.name == "ClimbAngleComp" and np.any(np.abs(np.subtract(c["v"]["thrust"], c["v"]["drag"])) >= 9.8 * np.array(c["v"]["weight"])):
        ctx.skipped = True  # more excess thrust than weight: no steady climb
        return
    p = e.problem(c["cfg"])
    G.load(p, e, c["cfg"], c["v"])
    for nm, g in e.guess.items():
        p.set_val(nm, g)
    out = outcome(p.run_model)
    what = "%s (configuration %s) with inputs in their usual range" % (e.name, c["cfg"])
    judge(False, out, what)
    for nm, shape in e.meta(c["cfg"])[1]:
        y = np.asarray(p.get_val(nm), dtype=float)
        need(np.all(np.isfinite(y)), "%s: %s = %s", what, nm, y.ravel().tolist()[:8])
    ctx.ok(e.family)


# ------------------------------------------------------------------ a heat pipe reports dry-out and temperatures outside its data
@st.composite
def pipes(draw):
    n = draw(tail(1, 4, 11))
    return dict(n=n, T=draw(arr(n, fl(0, 95))), hot=draw(st.sampled_from([None, None, None, -10.5, -25.0, 101.0, 130.0])), load=draw(arr(n, fl(0.05, 1.0))), lim=draw(st.sampled_from([None, 0.5, 0.9, 1.2])), over=draw(st.sampled_from([None, None, 1.0001, 1.2, 3.0])), pos=draw(st.integers(0, 20)),
                d=draw(fl(0.006, 0.03)), L=draw(fl(1, 15)), pipes=draw(st.sampled_from([1, 1, 4, 30])), Td=draw(fl(30, 90)))


@sub("C28", "heat_pipe", pipes, quick=900, thorough=12000, shards=4, rule="a load or temperature out of range, or a load just within it")
def t_pipe(c, ctx):
    n, pos = c["n"], c["pos"] % c["n"]
    kw = {} if c["lim"] is None else {"q_max_warn": c["lim"]}
    lim = 0.75 if c["lim"] is None else c["lim"]
    T = np.array(c["T"])
    if c["hot"] is not None:
        T[(pos + 1) % n] = c["hot"]

    def pre(m):
        for k, v, u in (("T_evap", np.ones(n), "degC"), ("q", np.ones(n), "W"), ("n_pipes", 1.0, None), ("length", 1.0, "m"), ("inner_diam", 0.02, "m"), ("T_design", 40.0, "degC")):
            m.set_input_defaults(k, val=v, units=u)

    p = build(HP.HeatPipe(num_nodes=n, **kw), {"T_evap": (T, "degC"), "q": (np.full(n, 1.0), "W"), "inner_diam": (c["d"], "m"), "length": (c["L"], "m"), "n_pipes": c["pipes"], "T_design": (c["Td"], "degC")}, pre=pre)
    judge(False, outcome(p.run_model), "heat pipe")
    qm = gv(p, "q_max", "W")
    if not np.all(np.isfinite(qm)) or np.min(qm) <= 0:
        ctx.skipped = True  # beyond the range in which it can work at all
        return
    q = lim * qm * np.minimum(c["load"], 0.99)
    if c["over"]:
        q[pos] = lim * qm[pos] * c["over"]
    p.set_val("q", q, units="W")
    out = outcome(p.run_model)
    judge(False, out, "heat pipe")
    dry = [x for x in out[1] if "capability" in x or "transfer" in x]
    cold = [x for x in out[1] if "temperature" in x]
    need(bool(dry) == bool(c["over"]), "%d heat pipes loaded with %s of their maximum, warning threshold %g: %s", c["pipes"], (q / qm).tolist(), lim, out[1] or "no warning")
    need(bool(cold) == (c["hot"] is not None), "heat pipe at %s degC: %s", T.tolist(), out[1] or "no warning")
    if c["over"] or c["hot"] is not None:
        ctx.ok()
