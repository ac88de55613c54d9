"""C07: missions without takeoff.

Every converged mission is taken apart: at each node of each phase the forces are rebuilt from the
reported flight condition and states with flight mechanics written out here, the states are
re-integrated, and the phase joints and mission targets are compared with what was asked for.
"""
import contextlib
import io
import warnings

import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

from ..core import sub, need
from ..lib import close, gv
from ..solve import NotConverged
from .. import mission as M
from .. import examples as EX
from .c02 import ref_integrate
from .c06 import us76

G0 = 9.80665
R = 287.053


def get(p, ph, name, units=None):
    return gv(p, "mission.%s.%s" % (ph, name), units)


def phase_data(p, ph):
    d = dict(h=get(p, ph, "fltcond|h", "m"), Ueas=get(p, ph, "fltcond|Ueas", "m/s"), U=get(p, ph, "fltcond|Utrue", "m/s"), vs=get(p, ph, "fltcond|vs", "m/s"), q=get(p, ph, "fltcond|q", "Pa"),
             rho=get(p, ph, "fltcond|rho", "kg/m**3"), T=get(p, ph, "fltcond|T", "K"), p=get(p, ph, "fltcond|p", "Pa"), CL=get(p, ph, "fltcond|CL"), W=get(p, ph, "weight", "kg"),
             D=get(p, ph, "drag", "N"), Th=get(p, ph, "thrust", "N"), thr=get(p, ph, "throttle"), range=get(p, ph, "range", "m"), fuel=get(p, ph, "fuel_used", "kg"),
             ff=get(p, ph, "fuel_flow", "kg/s"), dur=get(p, ph, "duration", "s")[0], gs=get(p, ph, "fltcond|groundspeed", "m/s"), lift=get(p, ph, "lift", "N"))
    return d


def check_atmosphere(d, dT, what):
    T, pr = us76(d["h"])
    need(np.all(np.abs(d["T"] - np.array(dT) - T) < 1.0), "%s: temperature %s at altitudes %s (standard %s)" % (what, d["T"].tolist(), d["h"].tolist(), T.tolist()))
    need(np.all(np.abs(d["p"] / pr - 1) < 7e-3), "%s: pressure %s at altitudes %s (standard %s)" % (what, d["p"].tolist(), d["h"].tolist(), pr.tolist()))
    close(d["rho"], d["p"] / R / d["T"], 2e-5, 0, what + ": density")
    close(d["U"], d["Ueas"] * np.sqrt(1.225 / d["rho"]), 2e-4, 0, what + ": true airspeed")
    close(d["q"], 0.5 * d["rho"] * d["U"] ** 2, 1e-8, 0, what + ": dynamic pressure")


def steady(p, cfg, ph, info):
    """Steady-flight balance, kinematics and fuel in one phase; returns the data."""
    d = phase_data(p, ph)
    c = cfg["phases"][ph]
    n = cfg["n"]
    what = "%s phase" % ph
    need(M.told(p, ph) == ph, "%s: the aircraft model is told it is in phase %r" % (what, M.told(p, ph)))
    close(d["Ueas"], c["Ueas"], 1e-9, 0, what + ": requested equivalent airspeed")
    close(d["vs"], c["vs"], 1e-9, 1e-12, what + ": requested vertical speed")
    check_atmosphere(d, c["dT"], what)
    sg = d["vs"] / d["U"]
    cg = np.sqrt(1 - sg**2)
    close(d["gs"], d["U"] * cg, 1e-8, 0, what + ": ground speed")
    W = d["W"] * G0
    close(d["q"] * cfg["S"] * d["CL"], W * cg, 1e-7, 0, what + ": lift against weight")
    close(d["lift"], W * cg, 1e-7, 0, what + ": reported lift against weight")
    close(d["Th"], d["D"] + W * sg, 1e-6, 1e-6 * W.max(), what + ": thrust against drag and weight component")
    CD = cfg["CD0"] + d["CL"] ** 2 / (np.pi * cfg["e"] * cfg["AR"])
    close(d["D"], d["q"] * cfg["S"] * CD, 1e-7, 0, what + ": drag polar")
    if cfg["prop"] == "analytic":
        T = d["thr"] * cfg["Tmax"] * (d["rho"] / 1.225) ** cfg["lapse"] * (cfg["nprop"] - 1 + np.array(c.get("act", 1.0))) / cfg["nprop"] * (1 - cfg["kU"] * d["U"] / 340.0)
        close(d["Th"], T, 1e-8, 1e-8 * W.max(), what + ": thrust at the reported throttle (all engines)")
        close(d["ff"], cfg["TSFC"] * T * (1 + cfg["kF"] * d["U"] / 340.0), 1e-8, 1e-12, what + ": fuel flow")
    close(d["W"], cfg["m0"] - d["fuel"], 1e-9, 0, what + ": weight")
    h = d["dur"] / (n - 1)
    for key, rate, tol in (("h", d["vs"], 1e-6), ("range", d["gs"], 1e-6), ("fuel", d["ff"], 1e-7)):
        close(d[key], ref_integrate(rate, h, d[key][0], "simpson"), 1e-9, tol * max(1.0, abs(d[key][0])), what + ": %s over the phase" % key)
    need(d["dur"] >= 0, "%s lasts %r s" % (what, d["dur"]))
    return d


def join(a, b, what, h=True):
    close(b["range"][0], a["range"][-1], 1e-9, 1e-6, what + ": range across the joint")
    close(b["fuel"][0], a["fuel"][-1], 1e-9, 1e-7, what + ": fuel used across the joint")
    if h:
        close(b["h"][0], a["h"][-1], 1e-9, 1e-6, what + ": altitude across the joint")


def check_flight(p, cfg, start_h=None):
    ds = {ph: steady(p, cfg, ph, None) for ph in M.FLIGHT[cfg["profile"]]}
    tol = 1e-6
    if start_h is not None:
        close(ds["climb"]["h"][0], start_h, 1e-9, 1e-9, "climb starts at the takeoff altitude")
    close(ds["climb"]["h"][-1], cfg["h0"], tol, 1e-3, "initial cruise altitude")
    join(ds["climb"], ds["cruise"], "climb to cruise")
    join(ds["cruise"], ds["descent"], "cruise to descent")
    close(ds["descent"]["h"][-1], cfg["hTO"], tol, 2e-3, "landing altitude")
    close(ds["descent"]["range"][-1], cfg["range"], tol, 1e-2, "mission range")
    if "reserve" in cfg["profile"]:
        rc, rd, lo = ds["reserve_climb"], ds["reserve_descent"], ds["loiter"]
        join(ds["descent"], rc, "descent to reserve climb", h=False)
        close(rc["h"][0], ds["descent"]["h"][-1], tol, 2e-3, "reserve climb starts at the landing altitude")
        join(rc, ds["reserve_cruise"], "reserve climb to cruise")
        join(ds["reserve_cruise"], rd, "reserve cruise to descent")
        join(rd, lo, "reserve descent to loiter", h=False)
        close(rc["h"][-1], cfg["hR"], tol, 1e-3, "reserve cruise altitude")
        close(rd["h"][-1], cfg["hTO"], tol, 2e-3, "altitude at the end of the reserve descent")
        close(rd["range"][-1] - ds["descent"]["range"][-1], cfg["rR"], tol, 1e-2, "reserve range")
        close(lo["dur"], cfg["tL"], 1e-9, 0, "loiter duration")
        close(lo["h"][0], cfg["hL"], 1e-9, 1e-9, "loiter altitude")
    return ds


@sub("C07", "profiles", M.missions(("basic", "basic", "reserve"), ("analytic", "analytic", "analytic", "turboprop1", "turboprop2", "hybrid2")), quick=240, thorough=4000, shards=8,
     rule="the mission converged", max_s=300)
def profiles(case, ctx):
    p = M.problem(case)
    try:
        M.solve(p)
    except NotConverged:
        ctx.skipped = True
        return
    check_mission(p, case)
    ctx.tag(case["profile"] + "/" + case["prop"])
    if case["hTO"]:
        ctx.tag("elevated field")
    ctx.ok()


def check_mission(p, case):
    ds = check_flight(p, case, case["hTO"])
    if case["prop"] == "hybrid2":  # a second carried state: the battery's
        prev = None
        for ph in M.FLIGHT[case["profile"]]:
            soc = get(p, ph, "propmodel.batt1.SOC")
            load = get(p, ph, "propmodel.batt1.elec_load", "W")
            if prev is not None:
                close(soc[0], prev, 1e-9, 1e-12, "state of charge into %s" % ph)
            cap = 0.25 * case["m0"] * 300.0 * 3600.0
            close(soc, ref_integrate(-load / cap, ds[ph]["dur"] / (case["n"] - 1), soc[0], "simpson"), 1e-8, 1e-9, "state of charge in %s" % ph)
            prev = soc[-1]


@sub("C07", "again", M.pairs(profiles=("basic", "reserve"), props=("analytic", "analytic", "turboprop2", "hybrid2")), quick=60, thorough=1000, shards=4, rule="both missions converged", max_s=200)
def again(case, ctx):
    """The same problem, flown twice with different aircraft sizes and missions."""
    p = M.problem(case["a"])
    try:
        M.solve(p)
        M.set_aircraft(p, case["b"])
        M.setvals(p, case["b"])
        M.solve(p)
    except NotConverged:
        ctx.skipped = True
        return
    check_mission(p, case["b"])
    ctx.ok()


# ------------------------------------------------------------------ the example aircraft
RATES = {"fltcond|h": "fltcond|vs", "range": "fltcond|groundspeed", "fuel_used": "fuel_flow", "fuel_burned": "fuel_flow", "SOC": "dSOCdt", "T": "dTdt"}
DRAG_HX = {"HybridTwin_thermal": "propmodel.duct.drag"}


@st.composite
def example_cases(draw):
    return dict(name=draw(st.sampled_from(sorted(EX.EXAMPLES))), seed=draw(st.integers(0, 10**6)), spread=draw(st.sampled_from([0.0, 0.02, 0.05, 0.08])))


def carried(p, pre):
    """{state name below a phase: {phase: name of its final value}}, for every carried state of the mission."""
    names = {a: m["prom_name"] for a, m in p.model.get_io_metadata(iotypes="output").items()}
    out = {}
    for a, nm in names.items():
        if nm.startswith(pre) and a.endswith("_final") and a[:-6] in names:
            ph, _, rest = names[a[:-6]][len(pre):].partition(".")
            out.setdefault(rest, {})[ph] = nm
    return out


@sub("C07", "examples", example_cases, quick=40, thorough=600, shards=8, rule="the mission converged", max_s=300)
def example_missions(c, ctx):
    """The aircraft models shipped with the library (with their propulsion, thermal and weight models), sizes and missions varied."""
    name = c["name"]
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        p = EX.EXAMPLES[name]("fwd")
        p.model.nonlinear_solver.options["iprint"] = -1
        pre = "mission." if "minimal" in name else ""
        rng = np.random.default_rng(c["seed"])
        ask = EX.vary(p, pre, c["spread"], rng)
        try:
            EX.tight(p)
            M.solve(p)
        except (NotConverged, om.AnalysisError):
            ctx.skipped = True
            return
    g = lambda ph, k, u=None: gv(p, pre + ph + "." + k, u)
    phases = ["climb", "cruise", "descent"] + (["reserve_climb", "reserve_cruise", "reserve_descent", "loiter"] if name == "B738" else [])
    states = carried(p, pre)
    need("fltcond|h" in states and "range" in states, "%s: altitude and range are not carried states (%s)" % (name, sorted(states)))
    for w, v in ask.items():
        close(gv(p, w), v, 1e-9, 1e-9, "%s: requested %s" % (name, w))
    D = {}
    for ph in phases:
        what = "%s, %s phase" % (name, ph)
        d = D[ph] = dict(h=g(ph, "fltcond|h", "m"), Ueas=g(ph, "fltcond|Ueas", "m/s"), U=g(ph, "fltcond|Utrue", "m/s"), vs=g(ph, "fltcond|vs", "m/s"), q=g(ph, "fltcond|q", "Pa"), rho=g(ph, "fltcond|rho", "kg/m**3"),
                         T=g(ph, "fltcond|T", "K"), p=g(ph, "fltcond|p", "Pa"), CL=g(ph, "fltcond|CL"), W=g(ph, "weight", "kg"), D=g(ph, "drag", "N"), Th=g(ph, "thrust", "N"), dur=g(ph, "duration", "s")[0])
        n = d["h"].size
        check_atmosphere(d, 0.0, what)
        sg = d["vs"] / d["U"]
        cg = np.sqrt(1 - sg**2)
        close(g(ph, "fltcond|groundspeed", "m/s"), d["U"] * cg, 1e-8, 0, what + ": ground speed")
        W = d["W"] * G0
        S = gv(p, "ac|geom|wing|S_ref", "m**2")[0]
        close(d["q"] * S * d["CL"], W * cg, 1e-7, 0, what + ": lift against weight")
        close(d["Th"], d["D"] + W * sg, 1e-6, 1e-6 * W.max(), what + ": thrust against drag and weight component")
        thr = g(ph, "throttle")
        need(np.all(np.isfinite(thr)), "%s: throttle %s" % (what, thr))
        if not pre:
            CD = gv(p, "ac|aero|polar|CD0_cruise")[0] + d["CL"] ** 2 / np.pi / gv(p, "ac|aero|polar|e")[0] / gv(p, "ac|geom|wing|AR")[0]
            extra = g(ph, DRAG_HX[name], "N") if name in DRAG_HX else 0.0
            close(d["D"], d["q"] * S * CD + extra, 1e-7, 0, what + ": drag polar")
            m0 = gv(p, "ac|weights|MTOW", "kg")[0]
            fuel = next((g(ph, k, "kg") for k in ("fuel_used", "intfuel.fuel_used") if k in states), 0.0)
            close(d["W"], m0 - fuel, 1e-9, 0, what + ": weight")
        for s, where in states.items():
            if ph not in where:
                continue
            head, _, leaf = s.rpartition(".")
            head += "." if head else ""
            x = g(ph, s)
            x0, x1 = float(x[0]), float(x[-1])
            mag = max(1e-9, np.max(np.abs(x)))
            close(gv(p, where[ph])[0], x1, 1e-9, 1e-12 * mag, "%s: final %s" % (what, s))
            if leaf in RATES:
                try:
                    r = g(ph, head + RATES[leaf])
                except KeyError:
                    continue
                u = {"fltcond|h": "m", "range": "m", "fuel_used": "kg", "fuel_burned": "kg", "T": "K"}.get(leaf)
                x, r = g(ph, s, u), g(ph, head + RATES[leaf], (u or "1") + "/s")
                close(x, ref_integrate(r, d["dur"] / (n - 1), x[0], "simpson"), 1e-8, 1e-7 * max(1.0, mag), "%s: %s over the phase" % (what, s))
                ctx.tag("state " + leaf)
    for a, b in zip(phases, phases[1:]):
        for s, where in states.items():
            if a in where and b in where and not (s == "fltcond|h" and (a == "descent" or b == "loiter")):
                xa, xb = g(a, s), g(b, s)
                close(xb[0], xa[-1], 1e-9, 1e-9 * max(1.0, np.max(np.abs(xa))), "%s: %s from %s to %s" % (name, s, a, b))
    t = lambda k, u: gv(p, pre + k, u)[0]
    close(D["climb"]["h"][-1], t("cruise|h0", "m"), 1e-6, 1e-3, name + ": initial cruise altitude")
    full = "takeoff|v1" in {m["prom_name"] for m in p.model.get_io_metadata(iotypes=("input", "output")).values()}
    close(D["descent"]["h"][-1], 0.0, 0, 2e-3, name + ": landing altitude")
    close(D["climb"]["h"][0], g("rotate", "fltcond|h", "m")[-1] if full else 0.0, 0, 2e-3, name + ": altitude at the start of the climb")
    close(g("descent", "range", "m")[-1], t("mission_range", "m"), 1e-6, 1e-2, name + ": mission range")
    if name == "B738":
        close(D["reserve_climb"]["h"][-1], t("reserve|h0", "m"), 1e-6, 1e-3, name + ": reserve cruise altitude")
        close(g("reserve_descent", "range", "m")[-1] - g("descent", "range", "m")[-1], t("reserve_range", "m"), 1e-6, 1e-2, name + ": reserve range")
        close(D["loiter"]["dur"], t("loiter_duration", "s"), 1e-9, 0, name + ": loiter time")
        close(D["loiter"]["h"], t("loiter|h0", "m"), 1e-6, 1e-3, name + ": loiter altitude")
    if full:
        v1, vr = t("takeoff|v1", "m/s"), g("v1vr", "fltcond|Utrue", "m/s")[-1]
        close(g("v0v1", "fltcond|Utrue", "m/s")[-1], v1, 1e-6, 1e-6, name + ": v0v1 ends at the decision speed")
        close(g("v1v0", "fltcond|Utrue", "m/s")[0], v1, 1e-6, 1e-6, name + ": braking starts at the decision speed")
        close(g("v1vr", "fltcond|Utrue", "m/s")[0], v1, 1e-6, 1e-6, name + ": v1vr starts at the decision speed")
        vs_ = np.sqrt(2 * gv(p, "ac|weights|MTOW", "kg")[0] * G0 / 1.225 / gv(p, "ac|geom|wing|S_ref", "m**2")[0] / gv(p, "ac|aero|CLmax_TO")[0])
        close(vr, 1.1 * vs_, 1e-6, 1e-6, name + ": rotation speed against stall speed")
        abort, go = g("v1v0", "range", "m")[-1], g("rotate", "range_final", "m")[0]
        if v1 < vr - 0.1 - 1e-6:
            close(abort, go, 1e-6, 1e-4, name + ": continued and rejected takeoff distance")
        for ph in ("v0v1", "v1vr", "v1v0"):
            U = g(ph, "fltcond|Utrue", "m/s")
            r = g(ph, "range", "m")
            close(r, ref_integrate(U, g(ph, "duration", "s")[0] / (U.size - 1), r[0], "simpson"), 1e-8, 1e-5, "%s, %s phase: distance" % (name, ph))
        for s, where in states.items():
            seq = [x for x in ("v0v1", "v1vr", "rotate", "climb") if x in where]
            if s in ("fltcond|h", "fltcond|Utrue", "fltcond|vs", "range") or len(seq) < 4:
                continue
            for a, b in zip(seq, seq[1:]):
                xa, xb = g(a, s), g(b, s)
                close(xb[0], xa[-1], 1e-9, 1e-9 * max(1.0, np.max(np.abs(xa))), "%s: %s from %s to %s" % (name, s, a, b))
                ctx.tag("state through the takeoff")
    ctx.tag(name)
    ctx.ok()
