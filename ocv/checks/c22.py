"""C22: operating cost."""
import numpy as np
from hypothesis import strategies as st

from ..core import sub, need
from ..lib import fl, tail, logfl, arr, bools, gv, close, build, setv, raises
from openconcept.costs import TurbopropOperatingCost

OPT = dict(airframe_cost_per_kg=fl(50, 900), fuel_cost_per_kg=fl(0.1, 5), electricity_cost_per_MJ=fl(0.001, 0.2), aircraft_life_years=fl(0.5, 60), aircraft_daily_cycles=fl(0.1, 15), battery_replacement_cycles=fl(100, 5000), OEM_premium=fl(0.3, 2.5))
DEF = dict(airframe_cost_per_kg=266.0, fuel_cost_per_kg=2.5 / 3.08, electricity_cost_per_MJ=0.01, aircraft_life_years=15, aircraft_daily_cycles=5, battery_replacement_cycles=1500, OEM_premium=1.1)
KG = [("kg", 1.0), ("lb", 0.45359237), ("g", 1e-3)]
MJ = [("MJ", 1.0), ("W*h", 0.0036), ("kW*h", 3.6), ("J", 1e-6)]


@st.composite
def case(draw):
    nc = draw(st.one_of(st.none(), tail(0, 6, 13)))
    nb = draw(st.one_of(st.none(), tail(1, 4, 11)))
    k = 1 if nc is None else nc
    b = nb or 0
    one = lambda: dict(w=draw(arr(k, fl(0, 700))), cost=draw(arr(k, fl(0, 3e5))), bc=draw(arr(b, fl(0, 1e5))), be=draw(arr(b, fl(0, 5e3))), fuel=draw(fl(0, 3e3)), oew=draw(logfl(200, 2e4)))  # noqa: E731
    return dict(nc=nc, nb=nb, opts={k_: draw(s) for k_, s in OPT.items() if draw(bools)}, sets=[one() for _ in range(draw(st.integers(1, 3)))], mu=draw(st.sampled_from(KG)), eu=draw(st.sampled_from(MJ)))


@sub("C22", "cost", case, quick=1500, thorough=40000, shards=4, rule="at least two components or a battery")
def t_cost(c, ctx):
    o = dict(DEF, **c["opts"])
    kw = dict(c["opts"])
    if c["nc"] is not None:
        kw["n_components"] = c["nc"]
    if c["nb"] is not None:
        kw["n_batteries"] = c["nb"]
    p = build(TurbopropOperatingCost(**kw))
    mu, mf = c["mu"]
    eu, ef = c["eu"]
    for s in c["sets"]:
        ins = {"fuel_burn": (s["fuel"] / mf, mu), "OEW": (s["oew"] / mf, mu)}
        for i, (w, k) in enumerate(zip(s["w"], s["cost"])):
            ins["component_%d_weight" % (i + 1)] = (w / mf, mu)
            ins["component_%d_NR_cost" % (i + 1)] = (k, "USD")
        for i, (k, e) in enumerate(zip(s["bc"], s["be"])):
            ins["battery_%d_NR_cost" % (i + 1)] = (k, "USD")
            ins["battery_%d_energy_used" % (i + 1)] = (e / ef, eu)
        setv(p, ins)
        p.run_model()
        prem = o["OEM_premium"]
        airframe = (s["oew"] - sum(s["w"])) * o["airframe_cost_per_kg"] * prem
        nr = airframe + prem * sum(s["cost"])
        fuel, elec, batt = s["fuel"] * o["fuel_cost_per_kg"], sum(s["be"]) * o["electricity_cost_per_MJ"], sum(s["bc"]) / o["battery_replacement_cycles"]
        trips = o["aircraft_daily_cycles"] * 365 * o["aircraft_life_years"]
        tot = abs(s["oew"]) * o["airframe_cost_per_kg"] * prem * 1e-8 + 1e-6
        doc = {"airframe_NR_cost": airframe, "total_NR_cost": nr, "fuel_cost": fuel, "trip_energy_cost": fuel + elec, "trip_direct_operating_cost": fuel + elec + batt + nr / trips}
        if c["nb"] is not None:
            doc.update(electricity_cost=elec, trip_battery_cost=batt)
        for k, v in doc.items():
            close(gv(p, k, "USD"), v, 1e-8, tot if "NR" in k else tot / trips + 1e-9, k)
    if len(c["sets"][0]["w"]) > 1 or c["nb"]:
        ctx.ok("nb=%s" % c["nb"])
