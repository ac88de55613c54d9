"""C15: batteries."""
import numpy as np
from hypothesis import strategies as st

from ..core import sub, need
from ..lib import fl, logfl, arr, tail, vec, bools, gv, close, build
from ..traj import chain
from .c02 import ref_integrate
from openconcept.energy_storage import SOCBattery, SimpleBattery

O = dict(efficiency=fl(0.0, 1.0), specific_power=logfl(20.0, 1e5), specific_energy=logfl(5.0, 1e4), cost_inc=fl(0.0, 3000.0), cost_base=fl(0.0, 1e6))
DEF = dict(efficiency=1.0, specific_power=5000.0, specific_energy=300.0, cost_inc=50.0, cost_base=1.0)
WU = [("kg", 1.0), ("lbm", 0.45359237)]
EU = [("W*h/kg", 3600.0), ("kJ/kg", 1e3), ("kW*h/kg", 3.6e6)]
LU = [("W", 1.0), ("kW", 1e3), ("MW", 1e6)]
TU = [("s", 1.0), ("min", 60.0), ("h", 3600.0)]


@st.composite
def case(draw):
    n = 2 * draw(tail(0, 5, 20)) + 1
    return dict(n=n, opts={k: draw(v) for k, v in O.items() if draw(bools)}, W=draw(logfl(0.01, 1e6)), load=draw(st.one_of(vec(n, -2e5, 1e6), vec(n, -1e3, 5e3), vec(n, 0.0, 5e7))), dur=draw(logfl(0.1, 2e5)), soc0=draw(st.one_of(st.none(), fl(0.0, 1.0))),
                se=draw(st.one_of(st.none(), logfl(5.0, 1e4))), wu=draw(st.sampled_from(WU)), eu=draw(st.sampled_from(EU)), lu=draw(st.sampled_from(LU)), tu=draw(st.sampled_from(TU)), again=draw(bools))


def common(p, c, load):
    o = dict(DEF, **c["opts"])
    W = c["W"]
    se = c["se"] if c["se"] is not None else o["specific_energy"]
    close(gv(p, "max_energy", "W*h"), W * se, 1e-9, 0, "energy capacity")
    close(gv(p, "heat_out", "W"), (1 - o["efficiency"]) * load, 1e-10, 1e-9, "waste heat")
    close(gv(p, "component_cost", "USD"), o["cost_base"] + o["cost_inc"] * W, 1e-9, 0, "cost")
    close(gv(p, "component_sizing_margin"), load / (o["specific_power"] * W), 1e-9, 1e-15, "sizing margin")
    return W * se * 3600.0


@sub("C15", "battery", case, quick=1200, thorough=30000, shards=4, rule="more than one node and a load that is not constant")
def t_battery(c, ctx):
    n, load = c["n"], np.array(c["load"])
    (wu, wf), (eu, ef), (lu, lfac), (tu, tf) = c["wu"], c["eu"], c["lu"], c["tu"]
    ins = {"battery_weight": (c["W"] / wf, wu), "elec_load": (load / lfac, lu)}
    if c["se"] is not None:
        ins["specific_energy"] = (c["se"] * 3600 / ef, eu)
    p = build(SimpleBattery(num_nodes=n, **c["opts"]), ins)
    p.run_model()
    common(p, c, load)
    ins["duration"] = (c["dur"] / tf, tu)
    if c["soc0"] is not None:
        ins["SOC_initial"] = c["soc0"]
    p = build(SOCBattery(num_nodes=n, **c["opts"]), ins)
    p.run_model()
    E = common(p, c, load)
    s0 = 1.0 if c["soc0"] is None else c["soc0"]
    if n == 1:
        close(gv(p, "SOC"), s0, 1e-12, 0, "single node state of charge")
        return
    drawn = ref_integrate(load, c["dur"] / (n - 1), 0.0, "simpson")
    SOC = gv(p, "SOC")
    scale = np.max(np.abs(load)) * c["dur"]
    close((s0 - SOC) * E, drawn, 1e-7, 1e-9 * scale + 1e-11 * E, "energy drawn from the battery")
    close(gv(p, "SOC_final"), SOC[-1], 1e-12, 0, "final state of charge")
    if len(set(c["load"])) > 1:
        ctx.ok("n=%d" % n)
    if c["again"]:
        p.set_val("elec_load", load[::-1] / lfac, units=lu)
        p.run_model()
        close((s0 - gv(p, "SOC")[-1]) * E, ref_integrate(load[::-1], c["dur"] / (n - 1), 0.0, "simpson")[-1], 1e-7, 1e-9 * scale + 1e-11 * E, "energy drawn after the load history changed")


@st.composite
def chains(draw):
    n = 2 * draw(tail(1, 4, 10)) + 1
    k = draw(tail(2, 4, 7))
    return dict(n=n, k=k, opts={k_: draw(v) for k_, v in O.items() if draw(bools)}, W=draw(logfl(1.0, 1e5)), se=None, soc0=draw(fl(0.0, 1.0)),
                ph=[dict(dur=draw(logfl(1.0, 5e4)), load=draw(vec(n, -3e5, 5e5))) for _ in range(k)])


@sub("C15", "phases", chains, quick=200, thorough=4000, shards=4, rule="at least two phases with a load")
def t_chain(c, ctx):
    p = chain(lambda: SOCBattery(num_nodes=c["n"], **c["opts"]), ["elec_load"], [dict(duration=ph["dur"], elec_load=(ph["load"], "W")) for ph in c["ph"]], ["battery_weight"])
    p.set_val("battery_weight", c["W"], units="kg")
    p.set_val("p0.SOC_initial", c["soc0"])
    p.run_model()
    se = c["opts"].get("specific_energy", DEF["specific_energy"])
    E = c["W"] * se * 3600
    used = 0.0
    for i, ph in enumerate(c["ph"]):
        want = used + ref_integrate(np.array(ph["load"]), ph["dur"] / (c["n"] - 1), 0.0, "simpson")
        close((c["soc0"] - gv(p, "p%d.SOC" % i)) * E, want, 1e-7, 1e-9 * np.max(np.abs(want)) + 1e-10 * E, "energy drawn up to phase %d" % i)
        used = want[-1]
    if sum(max(ph["load"]) > 0 for ph in c["ph"]) >= 2:
        ctx.ok("phases=%d" % c["k"])
