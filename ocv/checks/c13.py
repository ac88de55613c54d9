"""C13: thermal components."""
import math
import warnings
import numpy as np
from hypothesis import strategies as st

from ..core import sub, need
from ..lib import fl, logfl, arr, tail, vec, bools, gv, close, build, raises, sfl
from ..solve import newton, solve, NotConverged
from .c02 import ref_integrate
from openconcept.thermal import (PerfectHeatTransferComp, ThermalComponentWithMass, ThermalComponentMassless, ConstantSurfaceTemperatureColdPlate_NTU,
                                 LiquidCooledComp, CoolantReservoir, CoolantReservoirRate, LiquidCooledMotor, MotorCoolingJacket, LiquidCooledBattery,
                                 BandolierCoolingSystem, FlowSplit, FlowCombine, SimplePump, SimpleHose, HeatPipe)
from openconcept.thermal.chiller import LinearSelector, COPHeatPump, HeatPumpWeight, HeatPumpWithIntegratedCoolantLoop, COPExplicit
from openconcept.thermal.heat_pipe import (HeatPipeThermalResistance, HeatPipeVaporTempDrop, HeatPipeWeight, AmmoniaProperties, QMaxHeatPipe,
                                           QMaxAnalyticalPart, QMaxWarning)

T = fl(200.0, 500.0)
QQ = sfl(5e4)
MD = logfl(1e-3, 50.0)
CPV = st.one_of(st.none(), fl(800.0, 4500.0))
odd_nn = st.sampled_from([1, 3, 3, 5, 5, 7, 9, 17])


def opt(**kw):
    return {k: v for k, v in kw.items() if v is not None}


# ------------------------------------------------------------------ single components
@st.composite
def lumped(draw):
    n = draw(tail(1, 6, 20))
    return dict(n=n, kind=draw(st.sampled_from(["perfect", "mass", "massless", "rate", "split", "combine"])), cp=draw(CPV), Ta=draw(arr(n, T)), Tb=draw(arr(n, T)),
                q=draw(arr(n, QQ)), q2=draw(arr(n, QQ)), md=draw(arr(n, MD)), md2=draw(arr(n, MD)), m=draw(logfl(0.1, 1e3)), f=draw(vec(n, 0.0, 1.0)),
                bad=draw(st.sampled_from([None, None, -1e-6, 1.000001, -0.5, 2.0])), z=draw(st.integers(0, 2)))


@sub("C13", "lumped", lumped, quick=900, thorough=20000, shards=4, rule="several nodes with different values")
def t_lumped(c, ctx):
    n, k = c["n"], c["kind"]
    Ta, Tb, q, q2, md, md2, f = (np.array(c[x]) for x in ("Ta", "Tb", "q", "q2", "md", "md2", "f"))
    if k == "perfect":
        cp = c["cp"] or 3801.0
        p = build(PerfectHeatTransferComp(num_nodes=n, **opt(specific_heat=c["cp"])), {"T_in": (Ta, "K"), "q": (q, "W"), "mdot_coolant": (md, "kg/s")})
        p.run_model()
        To = gv(p, "T_out", "K")
        close(md * cp * (To - Ta), q, 1e-9, 1e-6, "enthalpy rise of the coolant")
        close(gv(p, "T_average", "K"), 0.5 * (Ta + To), 1e-12, 0, "average temperature")
    elif k == "mass":
        cp = c["cp"] or 921.0
        p = build(ThermalComponentWithMass(num_nodes=n, **opt(specific_heat=c["cp"])), {"q_in": (q, "W"), "q_out": (q2, "W"), "mass": (c["m"], "kg")})
        p.run_model()
        close(gv(p, "dTdt", "K/s") * c["m"] * cp, q - q2, 1e-10, 1e-7, "heat stored = in - out")
    elif k == "massless":
        p = build(ThermalComponentMassless(num_nodes=n), {"q_in": (q, "W"), "q_out": (q2, "W")})
        p.final_setup()
        p.model.run_apply_nonlinear()
        r = np.array(p.model._residuals["comp.T_object"] if "comp.T_object" in p.model._residuals else p.model._residuals._views["comp.T_object"])
        close(np.abs(r), np.abs(q - q2), 1e-10, 1e-8, "residual is the heat imbalance")
        close(r * np.sign(r[np.argmax(np.abs(r))] or 1), (q - q2) * np.sign((q - q2)[np.argmax(np.abs(q - q2))] or 1), 1e-10, 1e-8, "residual signs")
    elif k == "rate":
        p = build(CoolantReservoirRate(num_nodes=n), {"T_in": (Ta, "K"), "T_out": (Tb, "K"), "mass": (c["m"], "kg"), "mdot_coolant": (md, "kg/s")})
        p.run_model()
        close(gv(p, "dTdt", "K/s") * c["m"], md * (Ta - Tb), 1e-10, 1e-12, "reservoir enthalpy balance")
    elif k == "split":
        p = build(FlowSplit(num_nodes=n), {"mdot_in": (md, "kg/s"), "mdot_split_fraction": f})
        p.run_model()
        A, B = gv(p, "mdot_out_A", "kg/s"), gv(p, "mdot_out_B", "kg/s")
        close(A, md * f, 1e-12, 1e-14, "flow A")
        close(A + B, md, 1e-12, 1e-14, "flow conserved")
        if c["bad"] is not None:
            g = f.copy()
            g[c["z"] % n] = c["bad"]
            p.set_val("mdot_split_fraction", g)
            raises(p.run_model, "split fraction %r" % c["bad"], (RuntimeWarning, ValueError, RuntimeError))
    else:
        if c["z"] == 0:
            md2 = md2 * 0
        elif c["z"] == 1:
            md = md * (np.arange(n) % 2)
        p = build(FlowCombine(num_nodes=n), {"mdot_in_A": (md, "kg/s"), "mdot_in_B": (md2, "kg/s"), "T_in_A": (Ta, "K"), "T_in_B": (Tb, "K")})
        if np.any(md + md2 <= 0):
            return
        p.run_model()
        mo, To = gv(p, "mdot_out", "kg/s"), gv(p, "T_out", "K")
        close(mo, md + md2, 1e-12, 0, "flow conserved")
        close(mo * To, md * Ta + md2 * Tb, 1e-12, 0, "enthalpy conserved")
        need(np.all((To >= np.minimum(Ta, Tb) - 1e-9) & (To <= np.maximum(Ta, Tb) + 1e-9)), "mixed temperature %s outside %s, %s", To, Ta, Tb)
    if n > 1:
        ctx.ok(k)


@st.composite
def plates(draw):
    n = draw(tail(1, 5, 20))
    return dict(n=n, Ti=draw(arr(n, T)), Ts=draw(arr(n, T)), md=draw(arr(n, MD)), w=draw(logfl(2e-4, 2e-2)), h=draw(logfl(2e-4, 2e-2)), L=draw(logfl(0.02, 2.0)),
                npar=draw(logfl(1.0, 500.0)), cp=draw(CPV), k=draw(st.one_of(st.none(), fl(0.1, 1.0))), nu=draw(st.one_of(st.none(), fl(2.0, 10.0))),
                rho=draw(st.one_of(st.none(), fl(500.0, 1500.0))))


def cold_plate(c, Ts, Ti, md):
    cp, k, nu = c["cp"] or 3801.0, c.get("k") or 0.405, c.get("nu") or 7.54
    per, area = 2 * (c["w"] + c["h"]), c["w"] * c["h"]
    h = nu * k / (4 * area / per)
    ntu = h * per * c["L"] * c["npar"] / (md * cp)
    return -np.expm1(-ntu), cp


@sub("C13", "coldplate", plates, quick=500, thorough=15000, shards=3, rule="effectiveness between 0.01 and 0.99 somewhere")
def t_plate(c, ctx):
    Ti, Ts, md = (np.array(c[x]) for x in ("Ti", "Ts", "md"))
    p = build(ConstantSurfaceTemperatureColdPlate_NTU(num_nodes=c["n"], **opt(specific_heat=c["cp"], fluid_k=c["k"], nusselt=c["nu"], fluid_rho=c["rho"])),
              {"T_in": (Ti, "K"), "T_surface": (Ts, "K"), "mdot_coolant": (md, "kg/s"), "channel_width": (c["w"], "m"), "channel_height": (c["h"], "m"),
               "channel_length": (c["L"], "m"), "n_parallel": c["npar"]})
    p.run_model()
    eff, cp = cold_plate(c, Ts, Ti, md)
    q, To = gv(p, "q", "W"), gv(p, "T_out", "K")
    close(q, eff * md * cp * (Ts - Ti), 1e-8, 1e-7, "heat into the coolant")
    close(md * cp * (To - Ti), q, 1e-8, 1e-5, "enthalpy rise")
    need(np.all((To - Ti) * (Ts - To) >= -1e-8), "outlet %s not between inlet %s and plate %s", To, Ti, Ts)
    if np.any((eff > 0.01) & (eff < 0.99)):
        ctx.ok()


@st.composite
def jackets(draw):
    n = draw(tail(1, 5, 20))
    return dict(n=n, q=draw(arr(n, st.one_of(fl(0.0, 5e4), sfl(2e5)))), Ti=draw(arr(n, T)), T=draw(arr(n, T)), md=draw(arr(n, MD)), P=draw(logfl(1e4, 5e6)), W=draw(logfl(5.0, 2e3)),
                cp=draw(CPV), mcp=draw(st.one_of(st.none(), fl(300.0, 1200.0))), cc=draw(st.one_of(st.none(), fl(300.0, 3000.0))), ca=draw(st.one_of(st.none(), fl(2e5, 2e6))),
                tags=draw(bools))


def jacket(c, Tm, Ti, md):
    cp = c["cp"] or 3801.0
    UA = c["P"] * (c["cc"] or 1100.0) / (c.get("ca") or 650000.0)
    return -np.expm1(-UA / (md * cp)) * md * cp * (Tm - Ti)


@sub("C13", "motor_jacket", jackets, quick=400, thorough=15000, shards=3, rule="several nodes")
def t_jacket(c, ctx):
    n = c["n"]
    q, Ti, Tm, md = (np.array(c[x]) for x in ("q", "Ti", "T", "md"))
    comp = MotorCoolingJacket(num_nodes=n, exclude_tags=c["tags"], **opt(coolant_specific_heat=c["cp"], motor_specific_heat=c["mcp"], case_cooling_coefficient=c["cc"], case_area_coefficient=c["ca"]))
    p = build(comp, {"q_in": (q, "W"), "T_in": (Ti, "K"), "T": (Tm, "K"), "mdot_coolant": (md, "kg/s"), "power_rating": (c["P"], "W"), "motor_weight": (c["W"], "kg")})
    p.run_model()
    qr = jacket(c, Tm, Ti, md)
    cp, mcp = c["cp"] or 3801.0, c["mcp"] or 921.0
    close(gv(p, "q", "W"), qr, 1e-8, 1e-7, "heat to the coolant")
    close(md * cp * (gv(p, "T_out", "K") - Ti), qr, 1e-8, 1e-5, "coolant enthalpy rise")
    close(gv(p, "dTdt", "K/s") * c["W"] * mcp, q - qr, 1e-8, 1e-6, "heat stored")
    if n > 1:
        ctx.ok()


@st.composite
def bandoliers(draw):
    n = draw(tail(1, 5, 20))
    o = lambda a, b: st.one_of(st.none(), fl(a, b))  # noqa: E731
    return dict(n=n, q=draw(arr(n, st.one_of(fl(0.0, 5e4), sfl(2e5)))), Ti=draw(arr(n, T)), T=draw(arr(n, T)), md=draw(arr(n, MD)), W=draw(logfl(20.0, 5e3)), ncpb=draw(fl(2.0, 400.0)), tc=draw(logfl(2e-4, 3e-3)),
                opt=dict(coolant_specific_heat=draw(CPV), fluid_k=draw(o(0.1, 1.0)), nusselt=draw(o(3.0, 9.0)), cell_kr=draw(o(0.1, 1.0)), cell_diameter=draw(o(0.015, 0.05)),
                         cell_height=draw(o(0.04, 0.12)), cell_mass=draw(o(0.03, 0.2)), cell_specific_heat=draw(o(500.0, 1500.0)), battery_weight_fraction=draw(o(0.4, 1.0))), tags=draw(bools))


BD = dict(coolant_specific_heat=3801.0, fluid_k=0.405, nusselt=7.54, cell_kr=0.3, cell_diameter=0.021, cell_height=0.070, cell_mass=0.070, cell_specific_heat=875.0, battery_weight_fraction=0.65)


def bandolier(c, Tb, Ti, md):
    """Heat to the coolant over the whole pack from the series resistances of all cells and tapes."""
    o = {k: (v if v is not None else BD[k]) for k, v in c["opt"].items()}
    ncell = c["W"] * o["battery_weight_fraction"] / o["cell_mass"]
    ntape = ncell / (2 * c["ncpb"])
    cp = o["coolant_specific_heat"]
    hA = o["nusselt"] * o["fluid_k"] / (2 * c["tc"]) * 2 * o["cell_height"] * o["cell_diameter"] * c["ncpb"] * ntape
    eps = -np.expm1(-hA / (md * cp))
    G1 = md * cp * eps  # surface to coolant
    G2 = 8 * math.pi * o["cell_height"] * o["cell_kr"] * ncell  # mean to surface
    q = (Tb - Ti) * G1 * G2 / (G1 + G2)
    return q, Tb - q / G2, ncell, o


@sub("C13", "battery_bandolier", bandoliers, quick=400, thorough=15000, shards=3, rule="several nodes")
def t_band(c, ctx):
    n = c["n"]
    q, Ti, Tb, md = (np.array(c[x]) for x in ("q", "Ti", "T", "md"))
    p = build(BandolierCoolingSystem(num_nodes=n, exclude_tags=c["tags"], **opt(**c["opt"])),
              {"q_in": (q, "W"), "T_in": (Ti, "K"), "T_battery": (Tb, "K"), "mdot_coolant": (md, "kg/s"), "battery_weight": (c["W"], "kg"), "n_cpb": c["ncpb"], "t_channel": (c["tc"], "m")})
    p.run_model()
    qr, Ts, ncell, o = bandolier(c, Tb, Ti, md)
    close(gv(p, "q", "W"), qr, 1e-7, 1e-6, "heat to the coolant")
    close(gv(p, "T_surface", "K"), Ts, 1e-9, 0, "surface temperature")
    close(gv(p, "T_core", "K") - Tb, Tb - Ts, 1e-6, 1e-8, "core temperature")
    close(md * o["coolant_specific_heat"] * (gv(p, "T_out", "K") - Ti), qr, 1e-7, 1e-5, "coolant enthalpy rise")
    close(gv(p, "dTdt", "K/s") * ncell * o["cell_mass"] * o["cell_specific_heat"], q - qr, 1e-7, 1e-5, "heat stored in the cells")
    if n > 1:
        ctx.ok()


# ------------------------------------------------------------------ cooled groups: transient and quasi-steady
@st.composite
def groups(draw):
    kind = draw(st.sampled_from(["comp", "motor", "battery", "reservoir"]))
    n = draw(odd_nn)
    c = dict(kind=kind, n=n, qs=draw(bools), Ti=draw(vec(n, 270.0, 340.0)), md=draw(vec(n, 0.05, 5.0)), T0=draw(fl(270.0, 350.0)), dur=draw(logfl(10.0, 2000.0)), q=draw(vec(n, 0.0, 2e4)))
    if kind == "comp":
        c.update(w=draw(fl(1e-3, 5e-3)), h=draw(fl(1e-3, 5e-3)), L=draw(fl(0.1, 0.5)), npar=draw(fl(20.0, 100.0)), cp=draw(CPV), ocp=draw(st.one_of(st.none(), fl(300.0, 1200.0))), m=draw(logfl(5.0, 500.0)))
    elif kind == "motor":
        c.update(P=draw(logfl(1e5, 2e6)), W=draw(logfl(20.0, 500.0)), cp=draw(CPV), mcp=draw(st.one_of(st.none(), fl(300.0, 1200.0))), cc=draw(st.one_of(st.none(), fl(500.0, 3000.0))))
    elif kind == "battery":
        b = draw(bandoliers())
        c.update(W=draw(logfl(50.0, 3000.0)), ncpb=b["ncpb"], tc=b["tc"], opt=b["opt"])
    else:
        c.update(m=draw(logfl(5.0, 500.0)))
    return c


@sub("C13", "cooled_groups", groups, quick=600, thorough=12000, shards=8, rule="converged with at least three nodes and varying input")
def t_groups(c, ctx):
    n, k, qs = c["n"], c["kind"], c["qs"]
    Ti, md, q = (np.array(c[x]) for x in ("Ti", "md", "q"))
    ins = {"T_in": (Ti, "K"), "mdot_coolant": (md, "kg/s")}
    if k == "reservoir":
        if n == 1:
            return
        comp, qs = CoolantReservoir(num_nodes=n), False
        ins.update(mass=(c["m"], "kg"))
    elif k == "comp":
        comp = LiquidCooledComp(num_nodes=n, quasi_steady=qs, **opt(specific_heat_coolant=c["cp"], specific_heat_object=c["ocp"]))
        ins.update({"q_in": (q, "W"), "channel_width": (c["w"], "m"), "channel_height": (c["h"], "m"), "channel_length": (c["L"], "m"), "n_parallel": c["npar"]})
        if not qs:
            ins.update(mass=(c["m"], "kg"))
    elif k == "motor":
        comp = LiquidCooledMotor(num_nodes=n, quasi_steady=qs, **opt(coolant_specific_heat=c["cp"], motor_specific_heat=c["mcp"], case_cooling_coefficient=c["cc"]))
        ins.update({"q_in": (q, "W"), "power_rating": (c["P"], "W"), "motor_weight": (c["W"], "kg")})
    else:
        comp = LiquidCooledBattery(num_nodes=n, quasi_steady=qs, **opt(**c["opt"]))
        ins.update({"q_in": (q, "W"), "battery_weight": (c["W"], "kg"), "n_cpb": c["ncpb"], "t_channel": (c["tc"], "m")})
    if not qs:
        ins.update(T_initial=(c["T0"], "K"), duration=(c["dur"], "s"))
    name = "T_out" if k == "reservoir" else "T"
    p = build(comp, ins, solver=newton())
    p.set_val(name, 300.0, units="K")
    try:
        solve(p)
    except NotConverged:
        ctx.skipped = True
        return
    Tn = gv(p, name, "K")
    if k == "reservoir":
        rate = md * (Ti - Tn) / c["m"]
    else:
        if k == "comp":
            eff, cp = cold_plate(c, Tn, Ti, md)
            qo, C = eff * md * cp * (Tn - Ti), c["m"] * (c["ocp"] or 921.0)
        elif k == "motor":
            qo, cp, C = jacket(c, Tn, Ti, md), c["cp"] or 3801.0, c["W"] * (c["mcp"] or 921.0)
        else:
            qo, Ts, ncell, o = bandolier(c, Tn, Ti, md)
            cp, C = o["coolant_specific_heat"], ncell * o["cell_mass"] * o["cell_specific_heat"]
            close(gv(p, "T_surface", "K"), Ts, 1e-8, 0, "surface temperature")
            close(gv(p, "T_core", "K"), 2 * Tn - Ts, 1e-8, 0, "core temperature")
        close(md * cp * (gv(p, "T_out", "K") - Ti), qo, 1e-6, 1e-3, "coolant enthalpy rise")
        if qs:
            close(qo, q, 1e-6, 1e-2, "quasi-steady: heat out equals heat in")
        rate = (q - qo) / C
    if not qs:
        want = ref_integrate(rate, c["dur"] / max(n - 1, 1), c["T0"], "simpson")
        close(Tn, want, 1e-7, 1e-4, "temperature history against the integrated energy balance")
        fin = "T_final"
        close(gv(p, fin, "K"), Tn[-1], 1e-12, 0, "final temperature")
    if n > 1 and (len(set(c["Ti"])) > 1 or len(set(c["q"])) > 1):
        ctx.ok(k, "quasi-steady" if qs else "transient")


# ------------------------------------------------------------------ heat pump
def cop_soft(Tc, Th, eff):
    dT = Th - Tc
    a = Tc * np.where(dT == 0, 1.0, np.tanh(dT) / np.where(dT == 0, 1.0, dT)) * eff + 5 * (1 - np.tanh(dT + 3))
    w = 1 / (1 + np.exp(1.5 * (a - 10.0)))
    # weighted mean of a and the cap of 10, the smaller one dominating
    return a * w + 10.0 * (1 - w)


@st.composite
def pumps(draw):
    n = draw(tail(1, 6, 20))
    return dict(n=n, Tc=draw(arr(n, fl(230.0, 350.0))), d=draw(arr(n, st.one_of(fl(5.0, 120.0), fl(-60.0, 5.0), st.just(0.0)))), eff=draw(fl(0.1, 0.7)), P=draw(logfl(100.0, 1e6)), sp=draw(fl(50.0, 600.0)),
                COP=draw(arr(n, fl(0.0, 10.0))), byp=draw(vec(n, 0.0, 1.0)), Th=draw(arr(n, T)), Tro=draw(arr(n, T)), Trh=draw(arr(n, T)))


@sub("C13", "heat_pump_parts", pumps, quick=500, thorough=15000, shards=3, rule="several nodes")
def t_hp_parts(c, ctx):
    n = c["n"]
    Tc, d, COP, b, Th, Tro, Trh = (np.array(c[x]) for x in ("Tc", "d", "COP", "byp", "Th", "Tro", "Trh"))
    P = c["P"]
    p = build(COPExplicit(num_nodes=n), {"T_c": (Tc, "K"), "T_h": (Tc + d, "K"), "eff_factor": c["eff"]})
    p.run_model()
    got = gv(p, "COP")
    close(got, cop_soft(Tc, Tc + d, c["eff"]), 1e-7, 1e-7, "soft coefficient of performance")
    carnot = Tc / np.where(d == 0, 1e-9, d)
    m = (d > 5.0) & (c["eff"] * carnot < 5.0)
    need(np.all(np.abs(got[m] - c["eff"] * carnot[m]) <= 0.02), "COP %s away from the limits is not eff*Carnot %s", got, c["eff"] * carnot)
    need(np.all(got > 0) and np.all(got < 10.6), "COP %s out of range", got)
    p = build(COPHeatPump(num_nodes=n), {"COP": COP, "power_rating": (P, "W")})
    p.run_model()
    q1, q2 = gv(p, "q_in_1", "W"), gv(p, "q_in_2", "W")
    close(-q1, COP * P, 1e-12, 0, "duty = COP x work")
    close(q1 + q2, np.full(n, P), 1e-9, 1e-9 * P, "first law of the heat pump")
    p = build(HeatPumpWeight(), {"power_rating": (P, "W"), "specific_power": (c["sp"], "W/kg")})
    p.run_model()
    close(gv(p, "component_weight", "kg"), P / c["sp"], 1e-12, 0, "weight")
    p = build(LinearSelector(num_nodes=n), {"T_in_cold": (Tc, "K"), "T_in_hot": (Th, "K"), "T_out_refrig_cold": (Tro, "K"), "T_out_refrig_hot": (Trh, "K"), "power_rating": (P, "W"), "bypass": b})
    p.run_model()
    close(gv(p, "T_out_cold", "K"), (1 - b) * Tro + b * Th, 1e-12, 0, "cold outlet")
    close(gv(p, "T_out_hot", "K"), (1 - b) * Trh + b * Tc, 1e-12, 0, "hot outlet")
    close(gv(p, "elec_load", "W"), (1 - b) * P / 0.95, 1e-12, 1e-12 * P, "electrical load")
    if n > 1:
        ctx.ok()


@st.composite
def hpgroups(draw):
    n = draw(tail(1, 5, 20))
    md = draw(vec(n, 0.2, 5.0))
    return dict(n=n, Tc=draw(vec(n, 270.0, 330.0)), d=draw(vec(n, 0.0, 60.0)), md=md, P=draw(logfl(100.0, 3e4)), eff=draw(fl(0.2, 0.6)), sp=draw(fl(50.0, 600.0)), cp=draw(CPV), nl=draw(bools),
                b0=draw(fl(0.0, 1.0)), b1=draw(fl(0.0, 1.0)), b=draw(vec(n, 0.0, 1.0)), setb=draw(st.integers(0, 3)))


@sub("C13", "heat_pump_group", hpgroups, quick=400, thorough=10000, shards=6, rule="converged with partial bypass and several nodes")
def t_hp_group(c, ctx):
    n = c["n"]
    Tc, d, md = (np.array(c[x]) for x in ("Tc", "d", "md"))
    Th = Tc + d
    def pre(m):
        m.set_input_defaults("mdot_coolant", np.ones(n), units="kg/s")
        m.set_input_defaults("power_rating", 1000.0, units="W")
        m.set_input_defaults("T_in_hot", np.ones(n) * 400, units="K")
        m.set_input_defaults("T_in_cold", np.ones(n) * 400, units="K")
    comp = HeatPumpWithIntegratedCoolantLoop(num_nodes=n, nonlinear_bypass_control=c["nl"], **opt(specific_heat=c["cp"]))
    p = build(comp, {"T_in_hot": (Th, "K"), "T_in_cold": (Tc, "K"), "mdot_coolant": (md, "kg/s"), "power_rating": (c["P"], "W"), "specific_power": (c["sp"], "W/kg"), "eff_factor": c["eff"]}, pre=pre, solver=newton())
    # control values: 0 leaves the default of full bypass
    if c["nl"]:
        b = np.array(c["b"])
        p.set_val("bypass", b)
    else:
        b0, b1 = 1.0, 1.0
        if c["setb"] & 1:
            b0 = c["b0"]
            p.set_val("comp.control.bypass_start", b0)
        if c["setb"] & 2:
            b1 = c["b1"]
            p.set_val("comp.control.bypass_end", b1)
        b = np.linspace(b0, b1, n)
    try:
        solve(p)
    except NotConverged:
        ctx.skipped = True
        return
    cp = c["cp"] or 3801.0
    COP = gv(p, "COP")
    # temperatures leaving the refrigerator, from the balances
    trc, trh = Tc - COP * c["P"] / (md * cp), Th + (COP + 1) * c["P"] / (md * cp)
    close(COP, cop_soft(trc, trh, c["eff"]), 1e-5, 1e-5, "COP at the outlet temperatures")
    close(gv(p, "T_out_cold", "K"), b * Th + (1 - b) * trc, 1e-8, 0, "cold outlet")
    close(gv(p, "T_out_hot", "K"), b * Tc + (1 - b) * trh, 1e-8, 0, "hot outlet")
    close(gv(p, "elec_load", "W"), (1 - b) * c["P"] / 0.95, 1e-9, 1e-9 * c["P"], "electrical load")
    close(gv(p, "component_weight", "kg"), c["P"] / c["sp"], 1e-12, 0, "weight")
    # first law over both streams
    dH = md * cp * (gv(p, "T_out_cold", "K") + gv(p, "T_out_hot", "K") - Tc - Th)
    close(dH, (1 - b) * c["P"], 1e-6, 1e-2, "both streams together take up the work")
    if n > 1 and np.any((b > 0) & (b < 1)):
        ctx.ok("per-node bypass" if c["nl"] else "bypass start/end")


# ------------------------------------------------------------------ heat pipe
AT = np.array(list(range(-75, 51, 5)) + [60, 70, 80, 90, 100], dtype=float)
APV = np.array([7.93, 10.92, 15.61, 21.90, 30.16, 40.87, 54.54, 71.77, 93.19, 119.6, 151.6, 190.2, 236.3, 290.8, 354.8, 429.4, 515.7, 614.9, 728.3, 857.1, 1003., 1166., 1350., 1554., 1781., 2032.,
                2613., 3312., 4144., 5123., 6264.])
ARL = np.array([730.94, 725.27, 719.53, 713.78, 707.91, 702, 696.04, 689.99, 683.85, 677.64, 671.37, 665.03, 658.54, 651.98, 645.33, 638.57, 631.67, 624.69, 617.55, 610.28, 602.85, 595.24, 588.16,
                579.48, 571.3, 562.87, 545.23, 526.32, 505.71, 482.9, 456.93])
ARV = np.array([0.078241, 0.11141, 0.15552, 0.21321, 0.28596, 0.38158, 0.4994, 0.64508, 0.82318, 1.0386, 1.2969, 1.6039, 1.9659, 2.3874, 2.8827, 3.4528, 4.1086, 4.8593, 5.7153, 6.6876, 7.7882, 9.031,
                10.431, 12.006, 13.775, 15.761, 20.5, 26.5, 34.1, 43.9, 56.8])


@st.composite
def pipes(draw):
    n = draw(tail(1, 5, 20))
    o = lambda a, b: st.one_of(st.none(), fl(a, b))  # noqa: E731
    return dict(n=n, T=draw(arr(n, st.one_of(fl(-9.9, 99.9), fl(-74.9, -5.0), st.sampled_from([float(t) for t in AT])))), q=draw(arr(n, logfl(1.0, 1e4))), L=draw(fl(0.5, 15.0)), D=draw(fl(0.008, 0.05)), N=draw(fl(1.0, 20.0)),
                Td=draw(st.one_of(fl(-70.0, 100.0), st.sampled_from([40.0, 60.0, 80.0]))),
                opt=dict(length_evap=draw(o(0.05, 1.0)), length_cond=draw(o(0.05, 1.0)), wall_conduct=draw(o(20.0, 400.0)), wick_thickness=draw(o(0.0, 1.5e-3)), wick_conduct=draw(o(1.0, 40.0)),
                         yield_stress=draw(o(100.0, 900.0)), rho_wall=draw(o(1500.0, 8000.0)), stress_safety_factor=draw(o(1.0, 6.0)), theta=draw(o(0.0, 89.0)), q_max_warn=draw(o(0.1, 1.0))))


PD = dict(length_evap=0.25, length_cond=0.25, wall_conduct=196.0, wick_thickness=0.0, wick_conduct=4.0, yield_stress=572.0, rho_wall=2810.0, stress_safety_factor=4.0, theta=0.0, q_max_warn=0.75)


def ammonia(T):
    """From the component, after checking it against the published table (its interpolation is its own)."""
    T = np.atleast_1d(np.asarray(T, float))
    p = build(AmmoniaProperties(num_nodes=len(T)), {"temp": (T, "degC")})
    p.run_model()
    rl, rv, pv = gv(p, "rho_liquid", "kg/m**3"), gv(p, "rho_vapor", "kg/m**3"), gv(p, "vapor_pressure", "kPa")
    for got, tab, what in ((rl, ARL, "liquid density"), (rv, ARV, "vapour density"), (pv, APV, "vapour pressure")):
        for t, g in zip(T, got):
            if t < AT[0] or t > AT[-1]:
                continue
            j = int(np.clip(np.searchsorted(AT, t, side="right") - 1, 0, len(AT) - 2))
            a, b = tab[j], tab[j + 1]
            lin = a + (b - a) * (t - AT[j]) / (AT[j + 1] - AT[j])
            if t in AT:
                close(g, tab[list(AT).index(t)], 1e-7, 0, "%s at table temperature %g" % (what, t))
            need(abs(g - lin) <= 0.12 * abs(b - a) + 1e-9, "%s at %g C: %g between table values %g and %g", what, t, g, a, b)
    return rl, rv, pv


def qmax_ref(T, D, theta, rl, rv):
    s = 0.026 - 2.3e-4 * T
    g = 9.80665
    bo = D * np.sqrt(g * (rl - rv) / s)
    k = (rl / rv) ** 0.14 * np.tanh(bo**0.25) ** 2
    return k * math.pi * D**2 / 4 * 1371.2e3 * (g * math.cos(math.radians(theta)) * s * (rl - rv)) ** 0.25 / (rl**-0.25 + rv**-0.25) ** 2


def dT_vap(q, T, rv, pv, D, L):
    m = q / 1371.2e3
    v = m / rv / (math.pi * D * D / 4)
    Re = rv * v * D / (9e-6 + 4e-8 * T)
    dp = 0.3164 * Re**-0.25 * L / D * rv * v * v / 2
    return 35.976 / pv * dp / 1000


@sub("C13", "heat_pipe", pipes, quick=500, thorough=10000, shards=6, rule="several nodes or a wick")
def t_pipe(c, ctx):
    n, L, D, N = c["n"], c["L"], c["D"], c["N"]
    o = {k: (v if v is not None else PD[k]) for k, v in c["opt"].items()}
    T, q = np.array(c["T"]), np.array(c["q"])

    def pre(m):
        for k, v, u in (("T_evap", np.ones(n), "degC"), ("q", np.ones(n), "W"), ("n_pipes", 1.0, None), ("length", 1.0, "m"), ("inner_diam", 0.02, "m"), ("T_design", 40.0, "degC")):
            m.set_input_defaults(k, val=v, units=u)

    p = build(HeatPipe(num_nodes=n, **opt(**c["opt"])), {"T_evap": (T, "degC"), "q": (q, "W"), "length": (L, "m"), "inner_diam": (D, "m"), "n_pipes": N, "T_design": (c["Td"], "degC")}, pre=pre)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        p.run_model()
    rl, rv, pv = ammonia(T)
    pdes = ammonia(c["Td"])[2][0]
    qm = N * qmax_ref(T, D, o["theta"], rl, rv)
    close(gv(p, "q_max", "W"), qm, 1e-6, 0, "dry-out limit")
    t = pdes / 1e3 * D * o["stress_safety_factor"] / o["yield_stress"]
    close(gv(p, "weight", "kg"), N * L * math.pi * D * t * o["rho_wall"], 1e-6, 0, "wall weight")
    qp = q / N
    R = 0.0
    for le in (o["length_evap"], o["length_cond"]):
        R = R + math.log((D + 2 * t) / D) / (2 * math.pi * le * o["wall_conduct"]) + math.log(D / (D - 2 * o["wick_thickness"])) / (2 * math.pi * le * o["wick_conduct"])
    dT = qp * R + dT_vap(qp, T, rv, pv, D, L)
    close(T - gv(p, "T_cond", "degC"), dT, 1e-6, 1e-8, "temperature drop along the pipe")
    ratio = q / (o["q_max_warn"] * qm)
    warned = any("maximum heat transfer capability" in str(w.message) for w in ws)
    if np.any(ratio > 1 + 1e-6):
        need(warned, "no dry-out warning although q/q_max = %s with threshold %g", (q / qm).tolist(), o["q_max_warn"])
    elif np.all(ratio < 1 - 1e-6):
        need(not warned, "dry-out warning although q/q_max = %s with threshold %g", (q / qm).tolist(), o["q_max_warn"])
    if n > 1 or o["wick_thickness"] > 0:
        ctx.ok("wick" if o["wick_thickness"] > 0 else "no wick", "warned" if warned else "quiet")


@st.composite
def pipe_parts(draw):
    n = draw(tail(1, 5, 20))
    return dict(n=n, D=draw(fl(0.008, 0.05)), t=draw(fl(1e-4, 4e-3)), q=draw(arr(n, fl(10.0, 5e3))), dT=draw(arr(n, fl(0.0, 3.0))), vr=draw(bools), T=draw(arr(n, fl(-9.0, 99.0))), rv=draw(arr(n, fl(1.0, 50.0))),
                rl=draw(arr(n, fl(400.0, 700.0))), pv=draw(arr(n, fl(1e5, 6e6))), L=draw(fl(0.5, 15.0)), pd=draw(fl(0.1, 7.0)), le=draw(fl(0.05, 1.0)), lc=draw(fl(0.05, 1.0)), kw=draw(fl(20.0, 400.0)), km=draw(fl(1.0, 40.0)),
                tw=draw(fl(0.0, 2e-3)), th=draw(fl(0.0, 89.0)), lat=draw(st.one_of(st.none(), fl(1e6, 2e6))))


@sub("C13", "heat_pipe_parts", pipe_parts, quick=300, thorough=10000, shards=3, rule="several nodes")
def t_pipe_parts(c, ctx):
    n, D = c["n"], c["D"]
    q, dT, T, rv, rl, pv = (np.array(c[x]) for x in ("q", "dT", "T", "rv", "rl", "pv"))
    p = build(HeatPipeThermalResistance(num_nodes=n, length_evap=c["le"], length_cond=c["lc"], wall_conduct=c["kw"], wick_conduct=c["km"], wick_thickness=c["tw"], vapor_resistance=c["vr"]),
              {"inner_diam": (D, "m"), "wall_thickness": (c["t"], "m"), "q": (q, "W"), "delta_T": (dT, "K")})
    p.run_model()
    R = sum(math.log1p(2 * c["t"] / D) / (2 * math.pi * le * c["kw"]) - math.log1p(-2 * c["tw"] / D) / (2 * math.pi * le * c["km"]) for le in (c["le"], c["lc"]))
    close(gv(p, "thermal_resistance", "K/W"), R + (dT / q if c["vr"] else 0 * q), 1e-9, 0, "thermal resistance")
    p = build(HeatPipeVaporTempDrop(num_nodes=n), {"q": (q, "W"), "temp": (T, "degC"), "rho_vapor": (rv, "kg/m**3"), "vapor_pressure": (pv, "Pa"), "inner_diam": (D, "m"), "length": (c["L"], "m")})
    p.run_model()
    close(gv(p, "delta_T", "K"), dT_vap(q, T, rv, pv / 1e3, D, c["L"]), 1e-9, 0, "vapour temperature drop")
    p = build(HeatPipeWeight(), {"design_pressure": (c["pd"], "MPa"), "inner_diam": (D, "m"), "length": (c["L"], "m")})
    p.run_model()
    t = c["pd"] * D * 4.0 / 572.0
    close(gv(p, "wall_thickness", "m"), t, 1e-9, 0, "wall thickness")
    close(gv(p, "heat_pipe_weight", "kg"), c["L"] * math.pi * D * t * 2810.0, 1e-9, 0, "wall weight")
    p = build(QMaxAnalyticalPart(num_nodes=n, theta=c["th"]), {"inner_diam": (D, "m"), "temp": (T, "degC"), "rho_liquid": (rl, "kg/m**3"), "rho_vapor": (rv, "kg/m**3")})
    p.run_model()
    close(gv(p, "q_max", "W"), qmax_ref(T, D, c["th"], rl, rv), 1e-7, 0, "dry-out limit")
    if n > 1:
        ctx.ok("vapour" if c["vr"] else "no vapour")


# ------------------------------------------------------------------ hose and pump
@st.composite
def hoses(draw):
    n = draw(tail(1, 5, 20))
    o = lambda a, b: st.one_of(st.none(), fl(a, b))  # noqa: E731
    return dict(n=n, D=draw(logfl(5e-3, 0.1)), L=draw(logfl(0.1, 50.0)), pd=draw(logfl(1e5, 1e7)), md=draw(arr(n, MD)), rho=draw(arr(n, fl(600.0, 1300.0))), mu=draw(logfl(1e-4, 1e-2)), sig=draw(o(1e6, 2e7)), rh=draw(o(800.0, 3000.0)),
                P=draw(logfl(10.0, 1e5)), dp=draw(arr(n, fl(0.0, 1e6))), eta=draw(o(0.05, 1.0)), wb=draw(o(0.0, 20.0)), wi=draw(o(0.0, 0.01)))


@sub("C13", "hose_pump", hoses, quick=400, thorough=10000, shards=3, rule="several nodes with different flow and density")
def t_hose(c, ctx):
    n, D, L = c["n"], c["D"], c["L"]
    md, rho, dp = (np.array(c[x]) for x in ("md", "rho", "dp"))
    p = build(SimpleHose(num_nodes=n, **opt(hose_operating_stress=c["sig"], hose_density=c["rh"])),
              {"hose_diameter": (D, "m"), "hose_length": (L, "m"), "hose_design_pressure": (c["pd"], "Pa"), "mdot_coolant": (md, "kg/s"), "rho_coolant": (rho, "kg/m**3"), "mu_coolant": (c["mu"], "kg/m/s")})
    p.run_model()
    A = math.pi * D * D / 4
    v = md / rho / A
    f = 0.3164 * (rho * v * D / c["mu"]) ** -0.25
    close(gv(p, "delta_p", "Pa"), f * L / D * rho * v * v / 2, 1e-9, 0, "hose pressure drop")
    t = c["pd"] * D / 2 / (c["sig"] or 2.07e6)
    close(gv(p, "component_weight", "kg"), math.pi * (D + t) * t * L * (c["rh"] or 1356.3) + A * L * rho[0], 1e-9, 0, "hose and coolant weight")
    p = build(SimplePump(num_nodes=n, **opt(efficiency=c["eta"], weight_base=c["wb"], weight_inc=c["wi"])),
              {"power_rating": (c["P"], "W"), "mdot_coolant": (md, "kg/s"), "delta_p": (dp, "Pa"), "rho_coolant": (rho, "kg/m**3")})
    p.run_model()
    el = md / rho * dp / (c["eta"] or 0.35)
    close(gv(p, "elec_load", "W"), el, 1e-9, 1e-12, "pump load")
    close(gv(p, "component_sizing_margin"), el / c["P"], 1e-9, 1e-12, "pump margin")
    wb, wi = (0.0 if c["wb"] is None else c["wb"]), (1 / 450 if c["wi"] is None else c["wi"])
    close(gv(p, "component_weight", "kg"), wb + wi * c["P"], 1e-9, 0, "pump weight")
    if n > 1:
        ctx.ok()
