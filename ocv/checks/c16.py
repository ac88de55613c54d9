"""C16: liquid hydrogen tanks."""
import math
import numpy as np
from hypothesis import strategies as st

from ..core import sub, need
from ..lib import fl, logfl, arr, tail, vec, bools, gv, close, build
from ..traj import chain
from .c02 import ref_integrate
from openconcept.energy_storage import LH2TankNoBoilOff
from openconcept.energy_storage.hydrogen.structural import VacuumTankWeight, PressureVesselWallThickness, VacuumWallThickness, MLIWeight

SO = dict(weight_fudge_factor=fl(0.5, 3.0), stiffening_multiplier=fl(0.1, 2.0), inner_safety_factor=fl(0.5, 8.0), inner_yield_stress=logfl(5e6, 5e9), inner_density=fl(500.0, 2e4), outer_safety_factor=fl(0.5, 8.0),
          outer_youngs_modulus=logfl(1e9, 1e12), outer_density=fl(500.0, 2e4))
SD = dict(weight_fudge_factor=1.1, stiffening_multiplier=0.8, inner_safety_factor=1.5, inner_yield_stress=413.7e6, inner_density=2796.0, outer_safety_factor=2.0, outer_youngs_modulus=8.0e10, outer_density=2699.0)
TO = dict(fill_level_init=fl(0.02, 1.0), LH2_density=fl(40.0, 90.0))
TD = dict(fill_level_init=0.95, LH2_density=70.85)


def area(r, L):
    return 4 * math.pi * r * r + 2 * math.pi * r * L


def volume(r, L):
    return 4 / 3 * math.pi * r**3 + math.pi * r * r * L


def inner_t(p, r, sf, sig):
    """Thin shell: the hoop stress p r / t stays at yield over safety factor."""
    return p * r / (sig / sf)


def buckling(p, r, L, sf, E):
    """Smallest wall for which neither cylinder nor sphere buckles below sf * p (Roark table 15.2)."""
    # cylinder: p_cr = 0.92 E / (L/r) (t/r)^2.5 ; sphere: p_cr = 0.365 E (t/r)^2
    tc = r * (sf * p * (L / r) / (0.92 * E)) ** 0.4
    ts = r * (sf * p / (0.365 * E)) ** 0.5
    return tc, ts


def tank(c, o):
    r, L = c["r"], c["L"]
    ti = inner_t(c["pi"], r, o["inner_safety_factor"], o["inner_yield_stress"])
    ro = r + c["gap"]
    t = o["stiffening_multiplier"] * max(buckling(c["pe"], ro, L, o["outer_safety_factor"], o["outer_youngs_modulus"]))
    W = area(r, L) * ti * o["inner_density"] + area(ro, L) * t * o["outer_density"] + (18e-3 + 12e-3) * c["N"] * area(r, L)
    return o["weight_fudge_factor"] * W


@st.composite
def tanks(draw):
    n = 2 * draw(tail(0, 4, 20)) + 1
    o = {k: draw(v) for k, v in SO.items() if draw(bools)}
    t = {k: draw(v) for k, v in TO.items() if draw(bools)}
    return dict(n=n, o=o, t=t, r=draw(logfl(0.05, 12.0)), L=draw(st.one_of(st.just(0.0), logfl(1e-3, 60.0))), N=draw(fl(0.0, 250.0)), pe=draw(logfl(1e3, 3e6)), pi=draw(logfl(1e3, 1e7)), gap=draw(fl(0.0, 0.5)),
                md=draw(st.one_of(vec(n, -0.05, 0.2), vec(n, -2.0, 0.0), vec(n, 0.0, 3.0))), dur=draw(logfl(1.0, 2e5)), areal=draw(st.one_of(st.none(), arr(2, fl(1e-3, 5e-2)))))


def inputs(c):
    return {"radius": (c["r"], "m"), "length": (c["L"], "m"), "N_layers": c["N"], "environment_design_pressure": (c["pe"], "Pa"), "max_expected_operating_pressure": (c["pi"], "Pa"), "vacuum_gap": (c["gap"], "m")}


@sub("C16", "tank", tanks, quick=900, thorough=20000, shards=4, rule="more than one node and a varying flow")
def t_tank(c, ctx):
    o = dict(SD, **c["o"])
    n, r, L = c["n"], c["r"], c["L"]
    p = build(VacuumTankWeight(**c["o"]), inputs(c))
    p.run_model()
    W = tank(c, o)
    close(gv(p, "weight", "kg"), W, 1e-9, 0, "dry tank weight")
    # both walls on their own
    p = build(PressureVesselWallThickness(safety_factor=o["inner_safety_factor"], yield_stress=o["inner_yield_stress"], density=o["inner_density"]),
              {"design_pressure_differential": (c["pi"], "Pa"), "radius": (r, "m"), "length": (L, "m")})
    p.run_model()
    ti = gv(p, "thickness", "m")
    close(c["pi"] * r / ti * o["inner_safety_factor"], o["inner_yield_stress"], 1e-9, 0, "hoop stress at the allowable")
    close(gv(p, "weight", "kg"), ti * area(r, L) * o["inner_density"], 1e-9, 0, "inner wall weight")
    p = build(VacuumWallThickness(safety_factor=o["outer_safety_factor"], youngs_modulus=o["outer_youngs_modulus"], density=o["outer_density"], stiffening_multiplier=o["stiffening_multiplier"]),
              {"design_pressure_differential": (c["pe"], "Pa"), "radius": (r, "m"), "length": (L, "m")})
    p.run_model()
    t = gv(p, "thickness", "m") / o["stiffening_multiplier"]
    crit = [0.365 * o["outer_youngs_modulus"] * (t / r) ** 2] + ([0.92 * o["outer_youngs_modulus"] * (t / r) ** 2.5 / (L / r)] if L > 0 else [])
    close(min(crit), o["outer_safety_factor"] * c["pe"], 1e-8, 0, "governing buckling pressure equals the design load")
    close(gv(p, "weight", "kg"), t * o["stiffening_multiplier"] * area(r, L) * o["outer_density"], 1e-9, 0, "outer wall weight")
    kw = {} if c["areal"] is None else dict(foil_layer_areal_weight=c["areal"][0], spacer_layer_areal_weight=c["areal"][1])
    p = build(MLIWeight(**kw), {"radius": (r, "m"), "length": (L, "m"), "N_layers": c["N"]})
    p.run_model()
    close(gv(p, "weight", "kg"), c["N"] * area(r, L) * sum(c["areal"] or [18e-3, 12e-3]), 1e-9, 0, "insulation weight")
    # contents
    ins = inputs(c)
    ins["m_dot_liq"] = (c["md"], "kg/s")
    ins["integ.duration"] = (c["dur"], "s")
    p = build(LH2TankNoBoilOff(num_nodes=n, **c["o"], **c["t"]), ins)
    p.run_model()
    d = dict(TD, **c["t"])
    cap = d["LH2_density"] * volume(r, L)
    out = ref_integrate(np.array(c["md"]), c["dur"] / (n - 1), 0.0, "simpson") if n > 1 else np.zeros(1)
    m = d["fill_level_init"] * cap - out
    close(gv(p, "m_liq", "kg"), m, 1e-8, 1e-9 * (cap + np.max(np.abs(out))), "liquid mass")
    close(gv(p, "fill_level") * cap, m, 1e-8, 1e-9 * (cap + np.max(np.abs(out))), "fill level")
    close(gv(p, "tank_weight", "kg"), W, 1e-9, 0, "tank weight")
    close(gv(p, "total_weight", "kg"), m + W, 1e-8, 1e-9 * (cap + W + np.max(np.abs(out))), "total weight")
    if n > 1 and len(set(c["md"])) > 1:
        ctx.ok("sphere governs" if len(crit) == 1 or crit[0] < crit[1] else "cylinder governs")


@st.composite
def chains(draw):
    c = draw(tanks())
    n = 2 * draw(tail(1, 4, 10)) + 1
    c.update(n=n, ph=[dict(dur=draw(logfl(10.0, 5e3)), md=draw(vec(n, -0.1, 0.2))) for _ in range(draw(tail(2, 4, 7)))])
    return c


@sub("C16", "phases", chains, quick=150, thorough=3000, shards=4, rule="flow in at least two phases")
def t_chain(c, ctx):
    p = chain(lambda: LH2TankNoBoilOff(num_nodes=c["n"], **c["o"], **c["t"]), ["m_dot_liq"], [dict(duration=ph["dur"], m_dot_liq=(ph["md"], "kg/s")) for ph in c["ph"]], list(inputs(c)))
    from ..lib import setv
    setv(p, inputs(c))
    p.run_model()
    d = dict(TD, **c["t"])
    cap = d["LH2_density"] * volume(c["r"], c["L"])
    W = tank(c, dict(SD, **c["o"]))
    used = 0.0
    for i, ph in enumerate(c["ph"]):
        out = used + ref_integrate(np.array(ph["md"]), ph["dur"] / (c["n"] - 1), 0.0, "simpson")
        m = d["fill_level_init"] * cap - out
        close(gv(p, "p%d.m_liq" % i, "kg"), m, 1e-8, 1e-9 * (cap + np.max(np.abs(out))), "liquid mass in phase %d" % i)
        close(gv(p, "p%d.total_weight" % i, "kg"), m + W, 1e-8, 1e-9 * (cap + np.max(np.abs(out)) + W), "total weight in phase %d" % i)
        used = out[-1]
    if sum(max(ph["md"]) != 0 for ph in c["ph"]) >= 2:
        ctx.ok("phases=%d" % len(c["ph"]))
