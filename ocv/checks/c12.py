"""C12: assembled propulsion systems.

Everything a system reports is rebuilt from its inputs (throttles, ratings, flight condition) or,
for the coupled thermal loops, from energy balances between its parts.  Propeller thrust comes from a
stand-alone SimplePropeller (whose maps C11 compares with the published tables).
"""
import functools
import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

from ..core import sub, need
from ..lib import fl, logfl, arr, vec, bools, gv, close, setv
from ..solve import NotConverged
from .c02 import ref_integrate
import openconcept.propulsion as P
from openconcept.propulsion import SimplePropeller
from openconcept.thermal import ExplicitIncompressibleDuct

UT = 1e-5  # OpenMDAO's own hp / ft / lbf constants differ in the sixth digit
PSFC = 0.6 * 1.68965774e-7  # kg/W/s, default of the turboshaft
HP = 745.69987158227
G0 = 9.80665


@functools.lru_cache(None)
def prop_problem(n, kw):
    p = om.Problem(reports=False)
    p.model.add_subsystem("p", SimplePropeller(num_nodes=n, **dict(kw)), promotes=["*"])
    for k, u in (("rpm", "rpm"), ("diameter", "m"), ("fltcond|rho", "kg/m**3")):
        p.model.set_input_defaults(k, val=np.ones(1 if k == "diameter" else n), units=u)
    p.setup(check=False)
    return p


def propeller(n, kw, c, power, rpm, rating):
    p = prop_problem(n, tuple(sorted(kw.items())))
    setv(p, {"rpm": (rpm, "rpm"), "diameter": (c["D"], "m"), "fltcond|rho": (c["rho"], "kg/m**3"), "fltcond|Utrue": (c["U"], "m/s"), "shaft_power_in": (power, "W"), "power_rating": (rating, "W")})
    p.run_model()
    return gv(p, "thrust", "N"), gv(p, "component_weight", "kg")[0]


def base(draw, n):
    return dict(n=n, D=draw(fl(1.6, 3.2)), rho=draw(vec(n, 0.5, 1.25)), U=draw(vec(n, 30.0, 130.0)), rpm=draw(vec(n, 1700.0, 2300.0)), rpm2=draw(vec(n, 1700.0, 2300.0)),
                thr=draw(vec(n, 0.15, 1.1)), act=draw(st.one_of(st.just([1.0] * n), st.just([0.0] * n), arr(n, st.sampled_from([0.0, 1.0])), arr(n, fl(0, 1)))), pu=draw(st.sampled_from(["kW", "W", "hp"])))


PW = {"W": 1.0, "kW": 1e3, "hp": HP}


def solver(maxiter=40):
    def f(m):
        m.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, maxiter=maxiter, atol=1e-9, rtol=1e-13, iprint=-1, err_on_non_converge=False)
        m.nonlinear_solver.linesearch = om.BoundsEnforceLS(bound_enforcement="scalar", print_bound_enforce=False)
        m.linear_solver = om.DirectSolver()
    return f


def make(cls, n, ins, extra=None, run=True, **kw):
    p = om.Problem(reports=False)
    p.model.add_subsystem("s", cls(num_nodes=n, **kw), promotes=["*"])
    solver()(p.model)
    p.setup(check=False)
    setv(p, ins)
    return p


def go(p):
    try:
        p.run_model()
    except om.AnalysisError as e:
        raise NotConverged(str(e))
    p.model.run_apply_nonlinear()
    r = p.model._residuals.asarray()
    o = np.abs(p.model._outputs.asarray())
    if not np.all(np.abs(r) <= 1e-7 * np.maximum(o, 1.0)):
        raise NotConverged("residual %g" % np.max(np.abs(r)))


def common(c):
    return {"fltcond|rho": (c["rho"], "kg/m**3"), "fltcond|Utrue": (c["U"], "m/s"), "throttle": c["thr"]}


# ------------------------------------------------------------------ turboprops
@st.composite
def turboprops(draw):
    n = draw(st.integers(1, 7))
    return dict(base(draw, n), twin=draw(bools), R=draw(logfl(1e5, 1.2e6)))


@sub("C12", "turboprop", turboprops, quick=500, thorough=10000, shards=4, rule="a twin with a partly inactive propulsor, or several nodes")
def t_turbo(c, ctx):
    n, R = c["n"], c["R"]
    thr, act = np.array(c["thr"]), np.array(c["act"])
    ins = dict(common(c), **{"ac|propulsion|engine|rating": (R / PW[c["pu"]], c["pu"]), "ac|propulsion|propeller|diameter": (c["D"], "m"), "prop1.rpm": (c["rpm"], "rpm")})
    if c["twin"]:
        ins.update({"propulsor_active": act, "prop2.rpm": (c["rpm2"], "rpm")})
    p = make(P.TwinTurbopropPropulsionSystem if c["twin"] else P.TurbopropPropulsionSystem, n, ins)
    p.run_model()
    kw = dict(num_blades=4, design_J=2.2, design_cp=0.55)
    T1, W = propeller(n, kw, c, thr * R, c["rpm"], R)
    We = 104 + 0.14e-3 * R
    if not c["twin"]:
        close(gv(p, "thrust", "N"), T1, UT, 1e-3, "thrust")
        close(gv(p, "fuel_flow", "kg/s"), thr * R * PSFC, UT, 0, "fuel flow")
        close(gv(p, "eng1.component_weight", "kg"), We, UT, 0, "engine weight")
        close(gv(p, "prop1.component_weight", "kg"), W, UT, 0, "propeller weight")
    else:
        T2, _ = propeller(n, kw, c, thr * act * R, c["rpm2"], R)
        T2 = np.where(act == 0, 0.0, T2)
        close(gv(p, "thrust", "N"), T1 + T2, UT, 1e-3, "total thrust")
        close(gv(p, "fuel_flow", "kg/s"), thr * (1 + act) * R * PSFC, UT, 0, "total fuel flow")
        close(gv(p, "engines_weight", "kg"), 2 * We, UT, 0, "engine weights")
        close(gv(p, "propellers_weight", "kg"), 2 * W, UT, 0, "propeller weights")
        for k in (1, 2):
            close(gv(p, "prop%d.thrust" % k, "N"), (T1, T2)[k - 1], UT, 1e-3, "thrust of propeller %d" % k)
            close(gv(p, "eng%d.shaft_power_out" % k, "W"), gv(p, "prop%d.shaft_power_in" % k, "W"), 1e-9, 1e-9, "shaft %d" % k)
    if n > 1 and (not c["twin"] or np.any(act < 1)):
        ctx.ok("twin" if c["twin"] else "single")


# ------------------------------------------------------------------ series hybrids without cooling
@st.composite
def hybrids(draw):
    kind = draw(st.sampled_from(["plain", "single", "twin", "twin"]))
    n = 2 * draw(st.integers(0 if kind != "twin" else 1, 3)) + 1
    return dict(base(draw, n), kind=kind, Rm=draw(logfl(6e4, 8e5)), Re=draw(logfl(6e4, 2e6)), Rg=draw(logfl(6e4, 2e6)), W=draw(logfl(50, 3000)), se=draw(st.one_of(st.none(), st.integers(150, 900))),
                f=draw(st.one_of(vec(n, 0.0, 1.0), st.just([0.0] * n), st.just([1.0] * n))), ethr=draw(vec(n, 0.1, 1.0)), dur=draw(logfl(60, 5000)), soc=draw(fl(0.2, 1.0)))


@sub("C12", "series_hybrid", hybrids, quick=500, thorough=10000, shards=6, rule="both sources used at some node")
def t_hybrid(c, ctx):
    n, kind = c["n"], c["kind"]
    Rm, Re, Rg, W, f, thr, act = c["Rm"], c["Re"], c["Rg"], c["W"], np.array(c["f"]), np.array(c["thr"]), np.array(c["act"])
    u, q = c["pu"], PW[c["pu"]]
    ins = dict(common(c), **{"prop1.rpm": (c["rpm"], "rpm"), "hybrid_split.power_split_fraction": f, "ac|propulsion|engine|rating": (Re / q, u)})
    kw, se = {}, 300.0
    if kind == "plain":
        ins.update({"dv_prop1_diameter": (c["D"], "m"), "dv_motor1_rating": (Rm / q, u), "dv_gen1_rating": (Rg / q, u), "dv_batt1_weight": (W, "kg"), "eng1.throttle": c["ethr"]})
        cls = P.SeriesHybridElectricPropulsionSystem
    else:
        ins.update({"ac|propulsion|propeller|diameter": (c["D"], "m"), "ac|propulsion|motor|rating": (Rm / q, u), "ac|propulsion|generator|rating": (Rg / q, u), "ac|weights|W_battery": (W / 0.45359237, "lb")})
        if kind == "single":
            cls = P.SingleSeriesHybridElectricPropulsionSystem
            ins.update({"motor1.throttle": thr, "eng1.throttle": c["ethr"]})
            del ins["throttle"]
            if c["se"] is not None:
                kw["specific_energy"] = se = c["se"]
        else:
            cls = P.TwinSeriesHybridElectricPropulsionSystem
            ins.update({"propulsor_active": act, "prop2.rpm": (c["rpm2"], "rpm"), "duration": (c["dur"], "s"), "batt1.SOC_initial": c["soc"]})
            if c["se"] is not None:
                se = c["se"]
                ins["ac|propulsion|battery|specific_energy"] = (se, "W*h/kg")
    p = make(cls, n, ins, **kw)
    try:
        go(p)
    except NotConverged:
        ctx.skipped = True
        return
    T1, Wp = propeller(n, {}, c, 0.97 * thr * Rm, c["rpm"], Rm)
    load = thr * Rm * ((1 + act) if kind == "twin" else 1.0)
    at = 1e-6 * Rm
    A, B = f * load, (1 - f) * load
    close(gv(p, "hybrid_split.power_in", "W"), load, UT, at, "electrical demand")
    close(gv(p, "batt1.elec_load", "W"), A, UT, at, "battery share")
    close(gv(p, "hybrid_split.power_out_B", "W"), B, UT, 2 * at, "generator share")
    close(gv(p, "batt1.max_energy", "W*h"), W * se, UT, 0, "battery energy")
    gen = gv(p, "gen1.elec_power_out", "W")
    close(gen, 0.97 * gv(p, "eng1.shaft_power_out", "W"), UT, at, "generator efficiency")
    close(gv(p, "fuel_flow", "kg/s"), gv(p, "eng1.shaft_power_out", "W") * PSFC, UT, 1e-12, "fuel flow")
    if kind == "twin":
        T2, _ = propeller(n, {}, c, 0.97 * thr * act * Rm, c["rpm2"], Rm)
        T2 = np.where(act == 0, 0.0, T2)
        close(gv(p, "thrust", "N"), T1 + T2, UT, 1e-3, "total thrust")
        close(gen, B, 1e-6, 1.0, "the turbogenerator supplies exactly its share")
        close(gen + gv(p, "batt1.elec_load", "W"), gv(p, "motors_elec_load", "W"), 1e-6, 1.0, "engine and battery together supply the demand")
        close(gv(p, "battery_load", "W"), A, UT, at, "battery_load")
        close(gv(p, "motors_elec_load", "W"), load, UT, at, "motors_elec_load")
        close(gv(p, "motors_weight", "kg"), 2 * Rm / 5000, UT, 0, "motor weights")
        close(gv(p, "propellers_weight", "kg"), 2 * Wp, UT, 0, "propeller weights")
        E = W * se * 3600
        drawn = ref_integrate(A, c["dur"] / (n - 1), 0.0, "simpson")
        close((c["soc"] - gv(p, "batt1.SOC")) * E, drawn, 1e-6, 1e-8 * E + 1e-6 * Rm * c["dur"], "battery discharge")
        close(gv(p, "gen1.component_sizing_margin") * Rg, B, 1e-6, 1.0, "generator rated by its rating")
        close(gv(p, "eng1.component_sizing_margin") * Re, B / 0.97, 1e-6, 1.0, "engine rated by its rating")
        Wmot, Weng = gv(p, "motor2.component_weight", "kg"), 104 + 0.14e-3 * Re
        close(Wmot, Rm / 5000, UT, 0, "second motor")
    else:
        close(gv(p, "thrust", "N"), T1, UT, 1e-3, "thrust")
        e = np.array(c["ethr"]) * Re
        close(gv(p, "eng1.shaft_power_out", "W"), e, UT, 1e-6 * Re, "engine power")
        if kind == "single":
            close(gv(p, "eng_gen_resid.eng_gen_residual", "W"), 0.97 * e - B, 1e-6, 1e-6 * (Re + Rm), "residual to be closed by the user")
            close(gv(p, "motors_weight", "kg"), Rm / 5000, UT, 0, "motor weight")
            close(gv(p, "propellers_weight", "kg"), Wp, UT, 0, "propeller weight")
            Weng = 104 + 0.14e-3 * Re
        else:
            Weng = 0.0
    close(gv(p, "eng1.component_weight", "kg"), Weng, UT, 0, "engine weight")
    close(gv(p, "gen1.component_weight", "kg"), Rg / 5000, UT, 0, "generator weight")
    if np.any((A > 0) & (B > 0)):
        ctx.ok(kind)


# ------------------------------------------------------------------ cooled systems
@st.composite
def cooled(draw):
    n = 2 * draw(st.integers(1, 3)) + 1
    kind = draw(st.sampled_from(["electric", "compressible", "passive", "refrigerated"]))
    c = dict(base(draw, n), kind=kind, Rm=draw(logfl(1e5, 6e5)), Re=draw(logfl(2e5, 1e6)), Rg=draw(logfl(2e5, 1e6)), W=draw(logfl(200, 3000)), se=draw(st.integers(150, 900)), f=draw(vec(n, 0.0, 1.0)),
             dur=draw(logfl(60, 4000)), soc=draw(fl(0.2, 1.0)), T=draw(vec(n, 245.0, 305.0)), Tb=draw(fl(275.0, 325.0)), Tm=draw(fl(275.0, 325.0)), Tr=draw(fl(275.0, 325.0)), area=draw(fl(20.0, 150.0)),
             md=draw(vec(n, 0.06, 1.0)), mc=draw(fl(2.0, 40.0)), w=draw(fl(0.7, 1.6)), h=draw(fl(8.0, 30.0)), L=draw(fl(0.1, 0.5)), npar=draw(fl(20.0, 90.0)), wide=draw(fl(200.0, 700.0)),
             refr=draw(logfl(300.0, 4e3)), eff=draw(fl(0.25, 0.5)), spw=draw(fl(100.0, 400.0)), b0=draw(st.one_of(st.none(), fl(0, 1))), b1=draw(st.one_of(st.none(), fl(0, 1))))
    return c


CP = 3801.0  # coolant
CS = 921.0   # cooled solids


def cooled_problem(c):
    n, kind, u, q = c["n"], c["kind"], c["pu"], PW[c["pu"]]
    ins = dict(common(c), **{"prop1.rpm": (c["rpm"], "rpm"), "fltcond|T": (c["T"], "K"), "duration": (c["dur"], "s"), "batt1.SOC_initial": c["soc"], "ac|propulsion|motor|rating": (c["Rm"] / q, u),
                             "ac|propulsion|propeller|diameter": (c["D"], "m"), "ac|weights|W_battery": (c["W"], "kg"), "motorheatsink.T_initial": (c["Tm"], "K")})
    kw = {}
    if kind in ("electric", "compressible"):
        cls = P.AllElectricSinglePropulsionSystemWithThermal_Incompressible if kind == "electric" else P.AllElectricSinglePropulsionSystemWithThermal_Compressible
        ins.update({"mdot_coolant": (c["md"], "kg/s"), "coolant_mass": (c["mc"], "kg"), "channel_width": (c["w"], "mm"), "channel_height": (c["h"], "mm"), "channel_length": (c["L"], "m"), "n_parallel": c["npar"],
                    "reservoir.T_initial": (c["Tr"], "K")})
        kw["specific_energy"] = c["se"]
        if kind == "electric":
            ins.update({"area_nozzle": (np.full(n, c["area"]), "inch**2"), "hx.ac|propulsion|thermal|hx|n_wide_cold": c["wide"]})
        else:
            ins.update({"fltcond|p": (np.array(c["rho"]) * 287.058 * np.array(c["T"]), "Pa"), "duct.ac|propulsion|thermal|hx|n_wide_cold": c["wide"], "duct.area_nozzle": (np.full(n, c["area"]), "inch**2"),
                        "duct.area_1": (60.0, "inch**2")})
    else:
        cls = P.TwinSeriesHybridElectricThermalPropulsionSystem if kind == "passive" else P.TwinSeriesHybridElectricThermalPropulsionRefrigerated
        t = "ac|propulsion|thermal|"
        ins.update({"prop2.rpm": (c["rpm2"], "rpm"), "propulsor_active": c["act"], "hybrid_split.power_split_fraction": c["f"], "ac|propulsion|engine|rating": (c["Re"] / q, u), "ac|propulsion|generator|rating": (c["Rg"] / q, u),
                    "ac|propulsion|battery|specific_energy": (c["se"], "W*h/kg"), "batteryheatsink.T_initial": (c["Tb"], "K"), t + "hx|mdot_coolant": (c["md"], "kg/s"), t + "hx|coolant_mass": (c["mc"], "kg"),
                    t + "hx|channel_width": (c["w"], "mm"), t + "hx|channel_height": (c["h"], "mm"), t + "hx|channel_length": (c["L"], "m"), t + "hx|n_parallel": c["npar"], t + "hx|n_wide_cold": c["wide"],
                    t + "duct|area_nozzle": (np.full(n, c["area"]), "inch**2")})
        if kind == "passive":
            ins["reservoir.T_initial"] = (c["Tr"], "K")
        else:
            ins.update({"duct.area_nozzle": (np.full(n, c["area"]), "inch**2"), t + "refrig|rating": (c["refr"], "W"), t + "refrig|eff": c["eff"], t + "refrig|specific_power": (c["spw"], "W/kg")})
            if c["b0"] is not None:
                ins["refrig.control.bypass_start"] = c["b0"]
            if c["b1"] is not None:
                ins["refrig.control.bypass_end"] = c["b1"]
    return cls, ins, kw


@sub("C12", "cooled", cooled, quick=240, thorough=6000, shards=8, max_s=60, rule="converged with heat to reject")
def t_cooled(c, ctx):
    n, kind = c["n"], c["kind"]
    cls, ins, kw = cooled_problem(c)
    p = make(cls, n, ins, **kw)
    twin = kind in ("passive", "refrigerated")
    # starting point near ambient, as in a mission
    for k in ("motorheatsink.T", "motorheatsink.T_out", "batteryheatsink.T", "batteryheatsink.T_out", "reservoir.T_out", "refrig.T_out_cold", "refrig.T_out_hot", "hx.T_out_hot"):
        try:
            p.set_val(k, 300.0, units="K")
        except KeyError:
            pass
    try:
        go(p)
    except NotConverged:
        ctx.skipped = True
        ctx.tag("not converged " + kind)
        return
    thr, act, md, f = (np.array(c[k]) for k in ("thr", "act", "md", "f"))
    Rm, dt = c["Rm"], c["dur"] / (n - 1)
    heatm = 0.03 * thr * Rm * ((1 + act) if twin else 1.0)
    motload = thr * Rm * ((1 + act) if twin else 1.0)
    integ = lambda y: ref_integrate(y, dt, 0.0, "simpson")  # noqa: E731
    at = 1e-6 * Rm
    # --- power
    pk = dict() if twin else dict(num_blades=4, design_J=2.2, design_cp=0.55)
    T1, Wp = propeller(n, pk, c, 0.97 * thr * Rm, c["rpm"], Rm)
    elec = motload
    if twin:
        T2, _ = propeller(n, pk, c, 0.97 * thr * act * Rm, c["rpm2"], Rm)
        close(gv(p, "thrust", "N"), T1 + np.where(act == 0, 0.0, T2), UT, 1e-3, "total thrust")
        if kind == "refrigerated":
            b = np.linspace(1.0 if c["b0"] is None else c["b0"], 1.0 if c["b1"] is None else c["b1"], n)
            refload = (1 - b) * c["refr"] / 0.95
            close(gv(p, "refrig.elec_load", "W"), refload, UT, 1e-6 * c["refr"], "refrigerator load")
            close(gv(p, "refrig.component_weight", "kg"), c["refr"] / c["spw"], UT, 0, "refrigerator weight")
            elec = motload + refload
            close(gv(p, "total_elec_load", "W"), elec, UT, at, "total electrical load")
        else:
            close(gv(p, "motors_elec_load", "W"), elec, UT, at, "total electrical load")
        batt = f * elec
        gen = gv(p, "gen1.elec_power_out", "W")
        close(gen, elec - batt, 1e-6, 1.0 + at, "the turbogenerator supplies exactly its share")
        close(gv(p, "fuel_flow", "kg/s"), gen / 0.97 * PSFC, 1e-6, 1e-12, "fuel flow")
        close(gv(p, "battery_load", "W"), batt, UT, at, "battery_load")
        close(gv(p, "motors_weight", "kg"), 2 * Rm / 5000, UT, 0, "motor weights")
        close(gv(p, "propellers_weight", "kg"), 2 * Wp, UT, 0, "propeller weights")
        Cm = 2 * Rm / 5000 * CS
        close(gv(p, "motors_heat", "W"), heatm, UT, at, "motor heat")
        close(gv(p, "gen1.component_sizing_margin") * c["Rg"], elec - batt, 1e-6, 1.0 + at, "generator rated by its rating")
        close(gv(p, "eng1.component_sizing_margin") * c["Re"], (elec - batt) / 0.97, 1e-6, 1.0 + at, "engine rated by its rating")
    else:
        batt = elec
        close(gv(p, "thrust", "N"), T1, UT, 1e-3, "thrust")
        Cm = Rm / 5000 * CS
    close(gv(p, "batt1.elec_load", "W"), batt, UT, at, "battery load")
    E = c["W"] * c["se"] * 3600.0
    close((c["soc"] - gv(p, "batt1.SOC")) * E, integ(batt), 1e-6, 1e-8 * E + 1e-6 * Rm * c["dur"], "battery discharge")
    # --- heat
    def sink(name, heat, C, T0):
        """Heat given to the coolant by one cooled part, after checking that part's energy balance."""
        close(gv(p, name + ".q_in", "W"), heat, UT, at, name + " receives the waste heat")
        T = gv(p, name + ".T", "K")
        out = md * CP * (gv(p, name + ".T_out", "K") - gv(p, name + ".T_in", "K"))
        close(C * (T - T0), integ(heat - out), 1e-5, 1e-4 * C + 1e-6 * np.max(np.abs(heat)) * c["dur"], name + ": stored heat = heat in - heat to the coolant")
        close(gv(p, name + ".mdot_coolant", "kg/s"), md, 1e-9, 0, name + " coolant flow")
        return out
    tol = dict(rtol=1e-7, atol=1e-6)
    pipe = lambda a, b: close(gv(p, a, "K"), gv(p, b, "K"), 1e-9, 1e-7, "%s = %s" % (a, b))  # noqa: E731
    total = sink("motorheatsink", heatm, Cm, c["Tm"])
    if twin:
        total = total + sink("batteryheatsink", 0.03 * batt, c["W"] * CS, c["Tb"])
        pipe("batteryheatsink.T_out", "motorheatsink.T_in")
    hx = "duct.hx" if kind == "compressible" else "hx"
    Thi, Tho = ("duct.T_in_hot", "duct.T_out_hot") if kind == "compressible" else ("hx.T_in_hot", "hx.T_out_hot")
    rej = md * CP * (gv(p, Thi, "K") - gv(p, Tho, "K"))
    if kind != "refrigerated":
        pipe("motorheatsink.T_out", Thi)
        pipe(Tho, "reservoir.T_in")
        pipe("reservoir.T_out", "batteryheatsink.T_in" if twin else "motorheatsink.T_in")
        Tr = gv(p, "reservoir.T_out", "K")
        # heat taken up by the coolant store, from the loop as a whole
        close(c["mc"] * CP * (Tr - c["Tr"]), integ(total - rej), 1e-5, 1e-4 * c["mc"] * CP + 1e-6 * np.max(np.abs(total)) * c["dur"], "coolant store: collected heat - rejected heat")
    else:
        pipe("motorheatsink.T_out", "refrig.T_in_cold")
        pipe("refrig.T_out_cold", "batteryheatsink.T_in")
        pipe("refrig.T_out_hot", Thi)
        pipe(Tho, "refrig.T_in_hot")
        # quasi-steady heat pump: rejected = collected + work put in
        close(rej, total + (1 - b) * c["refr"], 1e-5, 1.0, "rejected heat = collected heat + refrigeration work")
    # cold side of the heat exchanger and the duct it sits in
    mdc = gv(p, "duct.mdot" if kind == "compressible" else "hx.mdot_cold", "kg/s")
    need(np.all(mdc > 0), "cooling air flow %s", mdc)
    if kind != "compressible":
        close(gv(p, "duct.mdot", "kg/s"), mdc, 1e-9, 0, "duct flow = heat exchanger flow")
        close(gv(p, "duct.delta_p_hex", "Pa"), gv(p, "hx.delta_p_cold", "Pa"), 1e-9, 1e-9, "pressure loss of the heat exchanger")
        # ram air: momentum from the flight condition, through the nozzle area given
        rho, U = np.array(c["rho"]), np.array(c["U"])
        loss = ExplicitIncompressibleDuct().options["static_pressure_loss_factor"]
        head = np.maximum(rho ** 2 * U ** 2 + 2 * rho * gv(p, "hx.delta_p_cold", "Pa"), 0.0)
        close(mdc, c["area"] * 0.0254 ** 2 * np.sqrt(head / (1 + loss)), 1e-5, 1e-4, "cooling air flow of the ram-air duct")
        for k, m in p.model.list_inputs(includes="*hx*rho_cold", units=True, out_stream=None):
            close(np.ravel(p.get_val(k, units="kg/m**3")), rho, 1e-9, 0, "density of the cooling air, %s" % k)
    close(gv(p, "duct.rho_hot" if kind == "compressible" else "hx.rho_hot", "kg/m**3"), 997.0, 1e-9, 0, "density of the coolant")
    close(gv(p, "motor1.component_weight", "kg"), Rm / 5000, UT, 0, "motor weight")
    if twin:
        close(gv(p, "motor2.component_weight", "kg"), Rm / 5000, UT, 0, "second motor's weight")
        close(gv(p, "eng1.component_weight", "kg"), 104 + 0.14e-3 * c["Re"], UT, 0, "engine weight")
        close(gv(p, "gen1.component_weight", "kg"), c["Rg"] / 5000, UT, 0, "generator weight")
    Tair = c["T"] if kind != "compressible" else gv(p, "duct.sta2.T", "K")
    warmed = mdc * gv(p, hx + ".cp_cold", "J/kg/K") * (gv(p, hx + ".T_out_cold", "K") - Tair)
    close(warmed, rej, 1e-5, 1.0, "heat taken up by the cooling air = heat rejected")
    close(gv(p, hx + ".heat_transfer", "W"), rej, 1e-5, 1.0, "heat leaving the coolant = heat exchanged")
    if np.max(np.abs(rej)) > 10:
        ctx.ok(kind)
