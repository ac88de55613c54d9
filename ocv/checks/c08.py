"""C08: balanced-field takeoff.

Every converged takeoff is taken apart node by node: forces are rebuilt from the reported flight
conditions with the parameters that were asked for, speeds and distances are re-integrated, phase joints,
decision speed, rotation and obstacle clearance are compared with their definitions.
"""
import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

from ..core import sub, need
from ..lib import close, gv, fl, odd, bools, arr, run
from ..solve import NotConverged
from .. import mission as M
from .c02 import ref_integrate
from .c06 import us76
from .c07 import check_atmosphere, check_flight, get
from openconcept.mission.phases import TakeoffTransition, TakeoffClimb, ClimbAnglePhase, RobustRotationPhase, BFLImplicitSolve, HorizontalAcceleration, VerticalAcceleration

G0 = 9.80665
FT = 0.3048


def vstall(cfg):
    return np.sqrt(2 * cfg["m0"] * G0 / (1.225 * cfg["S"] * cfg["CLmax"]))


def phase(p, ph, fuel=True):
    d = dict(h=get(p, ph, "fltcond|h", "m"), Ueas=get(p, ph, "fltcond|Ueas", "m/s"), U=get(p, ph, "fltcond|Utrue", "m/s"), q=get(p, ph, "fltcond|q", "Pa"), rho=get(p, ph, "fltcond|rho", "kg/m**3"),
             T=get(p, ph, "fltcond|T", "K"), p=get(p, ph, "fltcond|p", "Pa"), CL=get(p, ph, "fltcond|CL"), W=get(p, ph, "weight", "kg"), D=get(p, ph, "drag", "N"), Th=get(p, ph, "thrust", "N"),
             fuel=get(p, ph, "fuel_used", "kg"), ff=get(p, ph, "fuel_flow", "kg/s"))
    if fuel:
        d.update(range=get(p, ph, "range", "m"), dur=get(p, ph, "duration", "s")[0])
    return d


def forces(d, cfg, throttle, active, what):
    CD = cfg["CD0_TO"] + d["CL"] ** 2 / (np.pi * cfg["e"] * cfg["AR"])
    close(d["D"], d["q"] * cfg["S"] * CD, 1e-7, 0, what + ": drag in the takeoff configuration")
    if cfg["prop"] == "analytic":
        n = cfg["nprop"]
        T = throttle * cfg["Tmax"] * (d["rho"] / 1.225) ** cfg["lapse"] * (n - 1 + active) / n * (1 - cfg["kU"] * d["U"] / 340.0)
        close(d["Th"], T, 1e-8, 1e-6, what + ": thrust with throttle %g and %s" % (throttle, "all engines" if active else "one engine failed"))
        close(d["ff"], cfg["TSFC"] * T * (1 + cfg["kF"] * d["U"] / 340.0), 1e-8, 1e-12, what + ": fuel flow")


def on_ground(p, cfg, ph, throttle, active, mu, h):
    """Thrust, drag and friction against acceleration; returns data with the acceleration."""
    d = phase(p, ph)
    what = ph + " phase"
    n = cfg["n"]
    close(d["h"], h, 1e-9, 1e-9, what + ": altitude")
    check_atmosphere(d, 0.0, what)
    close(d["CL"], cfg["CLg"], 1e-9, 1e-12, what + ": ground-roll lift coefficient")
    forces(d, cfg, throttle, active, what)
    close(d["W"], cfg["m0"] - d["fuel"], 1e-9, 0, what + ": weight")
    L = d["q"] * cfg["S"] * d["CL"]
    close(get(p, ph, "lift", "N"), L, 1e-8, 1e-9, what + ": lift")
    a = (d["Th"] - d["D"] - mu * np.maximum(0.0, d["W"] * G0 - L)) / d["W"]
    close(get(p, ph, "accel_horiz", "m/s**2"), a, 1e-7, 1e-7, what + ": acceleration from thrust, drag and friction")
    dt = d["dur"] / (n - 1)
    need(d["dur"] >= 0, "%s lasts %r s" % (what, d["dur"]))
    close(d["range"], ref_integrate(d["U"], dt, d["range"][0], "simpson"), 1e-8, 1e-5, what + ": distance")
    close(d["fuel"], ref_integrate(d["ff"], dt, d["fuel"][0], "simpson"), 1e-8, 1e-7, what + ": fuel burned")
    d["a"], d["dt"] = a, dt
    return d


def check_takeoff(p, cfg, h=0.0):
    for ph in ("v0v1", "v1vr", "v1v0", "rotate", "engineoutclimb"):
        want = "EngineOutClimbAngle" if ph == "engineoutclimb" else ph
        need(M.told(p, ph) == want, "%s: the aircraft model is told it is in phase %r" % (ph, M.told(p, ph)))
    vs = vstall(cfg)
    vr, v2 = cfg["vrm"] * vs, cfg["v2m"] * vs
    v1 = gv(p, "mission.takeoff|v1", "m/s")[0]
    a = on_ground(p, cfg, "v0v1", cfg["thrTO"], 1.0, cfg["mu"], h)
    close(a["U"], ref_integrate(a["a"], a["dt"], cfg["zero"], "simpson"), 1e-7, 1e-6, "speed while accelerating to the decision speed (from %g m/s)" % cfg["zero"])
    close(a["U"][-1], v1, 1e-6, 1e-6, "v0v1 ends at the decision speed")
    close(a["range"][0], 0.0, 0, 1e-9, "takeoff distance starts at zero")
    b = on_ground(p, cfg, "v1vr", cfg["thrTO"], 0.0, cfg["mu"], h)
    close(b["U"], ref_integrate(b["a"], b["dt"], v1, "simpson"), 1e-7, 1e-6, "speed while accelerating to rotation, one engine failed")
    close(b["U"][-1], vr, 1e-6, 1e-6, "v1vr ends at the rotation speed")
    c = on_ground(p, cfg, "v1v0", 0.0, 0.0, cfg["muB"], h)
    # integrated back from the stop
    close(c["U"], np.flip(ref_integrate(-np.flip(c["a"]), c["dt"], cfg["zero"], "simpson")), 1e-7, 1e-6, "speed while braking to a stop")
    close(c["U"][0], v1, 1e-6, 1e-6, "v1v0 starts at the decision speed")
    for d, name in ((b, "v1vr"), (c, "v1v0")):
        close(d["range"][0], a["range"][-1], 1e-9, 1e-6, "distance into %s" % name)
        close(d["fuel"][0], a["fuel"][-1], 1e-9, 1e-9, "fuel used into %s" % name)
    close(a["fuel"][0], 0.0, 0, 1e-9, "fuel used at brake release")
    d = phase(p, "rotate")
    what = "rotation phase"
    check_atmosphere(d, 0.0, what)
    forces(d, cfg, cfg["thrTO"], 0.0, what)
    close(d["W"], cfg["m0"] - d["fuel"], 1e-9, 0, what + ": weight")
    dt = d["dur"] / (cfg["n"] - 1)
    close(d["fuel"], ref_integrate(d["ff"], dt, b["fuel"][-1], "simpson"), 1e-8, 1e-7, what + ": fuel burned")
    rf = get(p, "rotate", "range_final", "m")[0]
    hobs = (35 if cfg["transition"] == "simplified" else cfg["hobs"]) * FT
    if cfg["transition"] == "simplified":
        lin = np.linspace(0, 1, cfg["n"])
        close(d["h"], cfg["hrot"] + (hobs - cfg["hrot"]) * lin, 1e-9, 1e-9, what + ": heights up to the obstacle")
        close(d["Ueas"], vr + (v2 - vr) * lin, 1e-7, 0, what + ": speeds from vr to v2")
        close(d["CL"], d["W"] * G0 / d["q"] / cfg["S"], 1e-7, 0, what + ": lift against weight")
        gam = np.arcsin((d["Th"] - d["D"]) / (d["W"] * G0))
        close(get(p, "rotate", "gamma", "rad"), gam, 1e-7, 1e-10, what + ": climb angle")
        s, t, arc = raymer(d["U"][0], d["U"][-1], gam[0], gam[-1], 0.2, 10.66)
        close(d["dur"], t, 1e-7, 1e-9, what + ": time to the obstacle")
        close(rf, b["range"][-1] + s, 1e-8, 1e-6, what + ": distance to the obstacle")
        close(d["range"], b["range"][-1] + s * lin, 1e-8, 1e-6, what + ": distances within the phase")
        tag = "obstacle cleared in the transition" if arc else "climb after the transition"
    else:
        vz = get(p, "rotate", "fltcond|vs", "m/s")
        close(d["CL"], np.array(cfg["CLrot"]) * cfg["CLmax"], 1e-8, 0, what + ": rotation lift coefficient")
        L = d["q"] * cfg["S"] * d["CL"]
        sg = vz / d["U"]
        cg = np.sqrt(np.maximum(0, 1 - sg**2))
        ax = (d["Th"] - d["D"]) / d["W"] - G0 * sg
        az = np.clip((L * cg + (d["Th"] - d["D"]) * sg) / d["W"] - G0, -G0, 2.5 * G0)
        close(get(p, "rotate", "accel_horiz", "m/s**2"), ax, 1e-7, 1e-7, what + ": horizontal acceleration")
        close(get(p, "rotate", "accel_vert", "m/s**2"), az, 1e-7, 1e-7, what + ": vertical acceleration")
        close(d["U"], ref_integrate(ax, dt, vr, "simpson"), 1e-7, 1e-6, what + ": speed from vr")
        close(vz, ref_integrate(az, dt, 0.0, "simpson"), 1e-7, 1e-6, what + ": vertical speed from zero")
        close(d["h"], ref_integrate(vz, dt, 0.0, "simpson"), 1e-7, 1e-6, what + ": height from zero")
        close(d["h"][-1], hobs, 1e-6, 1e-6, what + ": ends at the obstacle height")
        close(d["range"], ref_integrate(d["U"] * cg, dt, b["range"][-1], "simpson"), 1e-8, 1e-5, what + ": distance")
        close(rf, d["range"][-1], 1e-9, 1e-9, what + ": final distance")
        tag = "ode"
    # balance
    abort = c["range"][-1]
    if v1 < vr - 0.1 - 1e-6:
        close(abort, rf, 1e-6, 1e-4, "continued and rejected takeoff distance at a decision speed below rotation speed")
        tag2 = "balanced"
    else:
        need(v1 <= vr + 1e-5, "decision speed %r beyond rotation speed %r" % (v1, vr))
        if abs(v1 - vr) > 1e-5:
            close(abort, rf, 1e-6, 1e-4, "continued and rejected takeoff distance")
        need(abort <= rf * (1 + 1e-6) + 1e-3, "decision speed at rotation speed although rejecting (%r m) is longer than continuing (%r m)" % (abort, rf))
        tag2 = "v1 = vr"
    # climb-out
    e = phase(p, "engineoutclimb", fuel=False)
    what = "engine-out climb"
    close(e["h"], h, 1e-9, 1e-9, what + ": altitude")
    close(e["Ueas"], v2, 1e-8, 0, what + ": speed v2")
    check_atmosphere(e, 0.0, what)
    close(e["CL"], cfg["m0"] * G0 / e["q"] / cfg["S"], 1e-8, 0, what + ": lift against takeoff weight")
    forces(e, cfg, 1.0, 0.0, what)
    close(get(p, "engineoutclimb", "gamma", "rad"), np.arcsin((e["Th"] - e["D"]) / (cfg["m0"] * G0)), 1e-8, 1e-10, what + ": climb angle")
    # joint with the climb
    close(get(p, "climb", "range", "m")[0], rf, 1e-9, 1e-6, "climb starts where the obstacle is passed")
    close(get(p, "climb", "fuel_used", "kg")[0], d["fuel"][-1], 1e-9, 1e-9, "fuel used into the climb")
    return tag, tag2


def raymer(U0, U1, g0, g1, nf, hobs):
    R = U0**2 / nf / G0
    h = R * (1 - np.cos(g0))
    if h > hobs:
        # the arc of radius R reaches hobs
        s = np.sqrt(2 * R * hobs - hobs**2)
        return s, s / U0, True
    s = R * np.sin(g0)
    sc = (hobs - h) / np.tan(g1)
    return s + sc, s / U0 + sc / U1, False


@st.composite
def takeoffs(draw, profiles=("full", "full", "full", "fullreserve"), props=("analytic",), **kw):
    c = draw(M.missions(profiles, props, **kw))
    c["hrot"] = draw(st.sampled_from([0.0, 1.0, 1.0, 4.0]))
    c["hrwy"] = draw(st.sampled_from([0.0, 0.0, 600.0, 1500.0]))
    c["zero"] = draw(st.sampled_from([2.0, 2.0, 1.6, 4.0]))
    c["hobs"] = draw(st.sampled_from([35.0, 35.0, 20.0, 50.0]))
    c["CLrot"] = draw(st.one_of(st.just(0.83), fl(0.8, 0.95)))
    if draw(st.integers(0, 3)) == 0:
        c["CLg"] = draw(fl(0.4, 1.6))  # the wing may carry the whole weight towards the end of the ground roll
    if c["prop"] != "analytic":
        c["transition"] = "simplified"
    return c


def problem(cfg):
    p = M.problem(cfg)
    setto(p, cfg)
    return p


def setto(p, cfg):
    M_ = "mission."
    n = cfg["n"]
    if cfg["transition"] == "simplified":
        p.set_val(M_ + "rotate.h_initial", cfg["hrot"], units="m")
    for ph in ("v0v1", "v1vr", "v1v0"):
        p.set_val(M_ + ph + ".fltcond|h", np.full(n, cfg["hrwy"]), units="m")
    for ph in ("v0v1", "v1v0"):
        p.set_val(M_ + ph + ".zero_speed", cfg["zero"], units="m/s")
    if cfg["transition"] == "ode":
        p.set_val(M_ + "rotate.CL_rotate_mult", cfg["CLrot"])
        p.set_val(M_ + "rotate.h_obs", cfg["hobs"], units="ft")
    p.set_val(M_ + "engineoutclimb.fltcond|h", cfg["hrwy"], units="m")


@sub("C08", "takeoffs", takeoffs(props=("analytic", "analytic", "analytic", "analytic", "turboprop2", "hybrid2")), quick=160, thorough=4000, shards=8, rule="the mission converged", max_s=300)
def full(case, ctx):
    p = problem(case)
    try:
        M.solve(p)
    except NotConverged:
        ctx.skipped = True
        return
    t = check_takeoff(p, case, case["hrwy"])
    check_flight(p, case)
    close(get(p, "climb", "fltcond|h", "m")[0], (35 if case["transition"] == "simplified" else case["hobs"]) * FT, 1e-6, 0, "climb starts at the obstacle height")
    ctx.ok(*t)
    ctx.tag(case["profile"] + "/" + case["prop"] + "/" + case["transition"])
    if case["hrwy"]:
        ctx.tag("elevated runway")


@st.composite
def twice(draw):
    a = draw(takeoffs(profiles=("full",)))
    b = draw(takeoffs(profiles=("full",), nodes=(a["n"],)))
    for k in ("integ", "order", "transition", "lapse", "kU", "kF", "nprop", "hyb", "n"):
        b[k] = a[k]
    b["second"] = True
    return dict(a=a, b=b)


@sub("C08", "again", twice(), quick=40, thorough=800, shards=8, rule="both missions converged", max_s=200)
def again(case, ctx):
    p = problem(case["a"])
    try:
        M.solve(p)
        M.set_aircraft(p, case["b"])
        M.setvals(p, case["b"])
        setto(p, case["b"])
        M.solve(p)
    except NotConverged:
        ctx.skipped = True
        return
    ctx.ok(*check_takeoff(p, case["b"], case["b"]["hrwy"]))
    check_flight(p, case["b"])


@sub("C08", "groundroll", M.missions(("ground",), ("analytic",)), quick=60, thorough=1000, shards=4, rule="the mission converged", max_s=200)
def groundroll(case, ctx):
    """Mission that starts with a ground roll to v2."""
    case = dict(case, CLg=0.1, mu=0.03)
    p = M.problem(case)
    try:
        M.solve(p)
    except NotConverged:
        ctx.skipped = True
        return
    d = phase(p, "groundroll")
    what = "ground roll"
    L = d["q"] * case["S"] * d["CL"]
    close(d["CL"], 0.1, 1e-9, 0, what + ": lift coefficient")
    CD = case["CD0"] + d["CL"] ** 2 / (np.pi * case["e"] * case["AR"])
    CDTO = case["CD0_TO"] + d["CL"] ** 2 / (np.pi * case["e"] * case["AR"])
    need(np.allclose(d["D"], d["q"] * case["S"] * CD, rtol=1e-7) or np.allclose(d["D"], d["q"] * case["S"] * CDTO, rtol=1e-7), what + ": drag %s" % d["D"].tolist())
    acc = (d["Th"] - d["D"] - 0.03 * np.maximum(0.0, d["W"] * G0 - L)) / d["W"]
    dt = d["dur"] / (case["n"] - 1)
    close(d["U"], ref_integrate(acc, dt, 2.0, "simpson"), 1e-7, 1e-6, what + ": speed")
    close(d["U"][-1], 1.2 * vstall(case), 1e-6, 1e-6, what + ": ends at the takeoff speed")
    close(d["range"], ref_integrate(d["U"], dt, 0.0, "simpson"), 1e-8, 1e-5, what + ": distance")
    close(d["fuel"], ref_integrate(d["ff"], dt, 0.0, "simpson"), 1e-8, 1e-7, what + ": fuel")
    close(d["W"], case["m0"] - d["fuel"], 1e-9, 0, what + ": weight")
    close(get(p, "climb", "range", "m")[0], d["range"][-1], 1e-9, 1e-6, "climb starts at the end of the ground roll")
    close(get(p, "climb", "fuel_used", "kg")[0], d["fuel"][-1], 1e-9, 1e-9, "fuel used into the climb")
    check_flight(p, case, case["hTO"])
    ctx.ok()


# ------------------------------------------------------------------ pieces, with their options
@st.composite
def geometries(draw):
    return dict(U0=draw(fl(25, 110)), U1=draw(fl(25, 110)), gam=draw(fl(0.005, 0.45)), gam1=draw(fl(0.005, 0.45)), hobs=draw(st.one_of(st.none(), fl(3.0, 40.0))), lf=draw(st.one_of(st.none(), fl(1.05, 1.6))))


@sub("C08", "geometry", geometries(), quick=300, thorough=10000, shards=4, rule="transition and climb evaluated")
def geometry(case, ctx):
    """Circular-arc transition and straight climb against plane geometry."""
    kw = {} if case["hobs"] is None else dict(h_obstacle=case["hobs"])
    hobs = 10.66 if case["hobs"] is None else case["hobs"]
    nf = 0.2 if case["lf"] is None else case["lf"] - 1
    p = run(TakeoffTransition(**(kw if case["lf"] is None else dict(kw, load_factor=case["lf"]))), {"fltcond|Utrue": case["U0"], "gamma": case["gam"]})
    s, h, t = (gv(p, k)[0] for k in ("s_transition", "h_transition", "t_transition"))
    R = case["U0"] ** 2 / nf / G0
    # the end point lies on the circle of radius R tangent to the ground at the start
    close(s**2 + (R - h) ** 2, R**2, 1e-9, 0, "end of the transition on the arc of radius %r" % R)
    need(h <= hobs * (1 + 1e-12), "transition ends at %r above the obstacle %r" % (h, hobs))
    if h < hobs * (1 - 1e-9):
        close(np.arctan2(s, R - h), case["gam"], 1e-7, 1e-9, "path angle at the end of the transition")
    else:
        need(np.arctan2(s, R - h) <= case["gam"] * (1 + 1e-9), "the arc passes the climb angle")
        ctx.tag("arc")
    close(t, s / case["U0"], 1e-12, 0, "transition time")
    q = run(TakeoffClimb(**kw), {"fltcond|Utrue": case["U1"], "gamma": case["gam1"], "h_transition": h})
    sc, tc = gv(q, "s_climb")[0], gv(q, "t_climb")[0]
    close(h + sc * np.tan(case["gam1"]), hobs, 1e-10, 0, "height reached at the end of the climb")
    close(tc, sc / case["U1"], 1e-12, 0, "climb time")
    ctx.ok()


@st.composite
def climbs(draw):
    c = draw(M.missions(("full",), ("analytic",), nodes=(3,)))
    return dict(ac=c, kind=draw(st.sampled_from(["AllEngineClimbAngle", "EngineOutClimbAngle"])), h=draw(fl(0, 3000)), v2m=draw(fl(1.1, 1.5)), thr=draw(fl(0.6, 1.0)))


@sub("C08", "climbangle", climbs(), quick=80, thorough=2000, shards=4, rule="climb angle evaluated")
def climbangle(case, ctx):
    cfg = case["ac"]
    p = om.Problem(reports=False)
    p.model.add_subsystem("x", ClimbAnglePhase(num_nodes=1, aircraft_model=nofuel(cfg), flight_phase=case["kind"]), promotes=["*"])
    p.setup(check=False)
    aircraft_inputs(p, cfg)
    p.set_val("v2_vstall_mult", case["v2m"])
    p.set_val("fltcond|h", case["h"], units="m")
    p.set_val("throttle", case["thr"])
    p.run_model()
    v2 = case["v2m"] * vstall(cfg)
    close(gv(p, "takeoff|v2", "m/s"), v2, 1e-8, 0, "v2")
    rho, U = gv(p, "fltcond|rho", "kg/m**3"), gv(p, "fltcond|Utrue", "m/s")
    T, pr = us76(np.array([case["h"]]))
    close(rho, pr / 287.053 / T, 1e-2, 0, "density at the altitude")
    close(U, v2 * np.sqrt(1.225 / rho), 2e-4, 0, "true airspeed at v2")
    q = 0.5 * rho * U**2
    CL = cfg["m0"] * G0 / q / cfg["S"]
    on = case["kind"] == "AllEngineClimbAngle"
    Th = case["thr"] * cfg["Tmax"] * (rho / 1.225) ** cfg["lapse"] * (1.0 if on else (cfg["nprop"] - 1) / cfg["nprop"]) * (1 - cfg["kU"] * U / 340.0)
    CDs = [cd0 + CL**2 / np.pi / cfg["e"] / cfg["AR"] for cd0 in ((cfg["CD0"],) if on else (cfg["CD0_TO"],))]
    sg = (Th - q * cfg["S"] * CDs[0]) / cfg["m0"] / G0
    close(np.sin(gv(p, "gamma", "rad")), sg, 1e-7, 1e-9, "climb gradient, %s" % case["kind"])
    ctx.ok(case["kind"])


def nofuel(cfg):
    """The analytic aircraft without fuel integration (explicit, standalone phases)."""
    full = M.aircraft(dict(cfg, prop="analytic", integ="explicit", order=True))
    return full


def aircraft_inputs(p, cfg):
    for k, v, u in (("ac|geom|wing|S_ref", cfg["S"], "m**2"), ("ac|geom|wing|AR", cfg["AR"], None), ("ac|aero|polar|e", cfg["e"], None), ("ac|aero|CLmax_TO", cfg["CLmax"], None),
                    ("ac|weights|MTOW", cfg["m0"], "kg"), ("ac|propulsion|Tmax", cfg["Tmax"], "N"), ("ac|propulsion|TSFC", cfg["TSFC"], "kg/N/s")):
        p.set_val(k, v, units=u)
    for k, v in (("ac|aero|polar|CD0_TO", cfg["CD0_TO"]), ("ac|aero|polar|CD0_cruise", cfg["CD0"])):
        try:
            p.set_val(k, v)
        except KeyError:
            pass


@st.composite
def rotations(draw):
    c = draw(M.missions(("full",), ("analytic",), nodes=(3, 5, 9)))
    return dict(ac=c, hobs=draw(st.one_of(st.none(), fl(5.0, 30.0))), hini=draw(fl(0.0, 4.0)), r0=draw(fl(200.0, 2000.0)), f0=draw(fl(0.0, 50.0)), thr=draw(fl(0.9, 1.1)), act=draw(st.sampled_from([0.0, 0.0, 1.0])))


@sub("C08", "rotation", rotations(), quick=60, thorough=1500, shards=4, rule="the phase converged with a positive climb angle")
def rotation(case, ctx):
    """The simplified rotation phase on its own, including its obstacle-height option."""
    cfg = case["ac"]
    n = cfg["n"]
    kw = {} if case["hobs"] is None else dict(h_obstacle=case["hobs"])
    p = om.Problem(reports=False)
    p.model.add_subsystem("x", RobustRotationPhase(num_nodes=n, aircraft_model=nofuel(cfg), flight_phase="rotate", **kw), promotes=["*"])
    p.model.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, maxiter=40, atol=1e-10, rtol=1e-13, iprint=-1, err_on_non_converge=True)
    p.model.linear_solver = om.DirectSolver()
    p.setup(check=False)
    aircraft_inputs(p, cfg)
    vs = vstall(cfg)
    p.set_val("vr_vstall_mult", cfg["vrm"])
    p.set_val("v2_vstall_mult", cfg["v2m"])
    p.set_val("h_initial", case["hini"], units="m")
    p.set_val("range_initial", case["r0"], units="m")
    p.set_val("throttle", np.full(n, case["thr"]))
    p.set_val("propulsor_active", np.full(n, case["act"]))
    p.set_val("intfuel.fuel_used_initial", case["f0"], units="kg")
    try:
        M.solve(p)
    except NotConverged:
        ctx.skipped = True
        return
    g = {k: gv(p, k, u) for k, u in (("fltcond|h", "m"), ("fltcond|Ueas", "m/s"), ("fltcond|Utrue", "m/s"), ("thrust", "N"), ("drag", "N"), ("weight", "kg"), ("range", "m"))}
    gam = np.arcsin((g["thrust"] - g["drag"]) / g["weight"] / G0)
    if gam.min() < 0.005:
        ctx.skipped = True
        return
    lin = np.linspace(0, 1, n)
    stated = 35 * FT if case["hobs"] is None else case["hobs"]
    close(gv(p, "fltcond|h_final", "m"), stated, 1e-3, 0, "final height of the rotation phase with its obstacle option")
    close(g["fltcond|h"], case["hini"] + (stated - case["hini"]) * lin, 1e-3, 1e-6, "heights within the phase")
    close(g["fltcond|Ueas"], vs * (cfg["vrm"] + (cfg["v2m"] - cfg["vrm"]) * lin), 1e-7, 0, "speeds")
    s, t, arc = raymer(g["fltcond|Utrue"][0], g["fltcond|Utrue"][-1], gam[0], gam[-1], 0.2, 10.66 if case["hobs"] is None else case["hobs"])
    close(gv(p, "range_final", "m"), case["r0"] + s, 1e-7, 1e-6, "distance to the obstacle of %s m" % (case["hobs"] or 10.66))
    close(gv(p, "duration", "s"), t, 1e-7, 1e-9, "time to the obstacle")
    close(g["range"], case["r0"] + s * lin, 1e-7, 1e-6, "distances within the phase")
    ctx.ok("arc" if arc else "climb")
    if case["hobs"]:
        ctx.tag("other obstacle")


@st.composite
def speeds(draw):
    vr = draw(fl(30, 100))
    return dict(vr=vr, v1=vr + draw(st.sampled_from([0.0, 0.05, -0.05, -0.2, -5.0, 3.0])), dc=draw(fl(300, 3000)), da=draw(fl(300, 3000)))


@sub("C08", "balance", speeds(), quick=200, thorough=3000, rule="residual evaluated")
def balance(case, ctx):
    """The residual vanishes exactly at a balanced field, or at vr when continuing is the longer way there."""
    from ..lib import build
    p = build(BFLImplicitSolve(), {"distance_continue": case["dc"], "distance_abort": case["da"], "takeoff|vr": case["vr"]})
    p.final_setup()

    def resid(v1, dc, da):
        p.set_val("takeoff|v1", v1)
        p.set_val("distance_continue", dc)
        p.set_val("distance_abort", da)
        p.model.run_apply_nonlinear()
        return float(p.model._residuals.asarray()[-1])
    v1, vr, dc, da = case["v1"], case["vr"], case["dc"], case["da"]
    if v1 < vr - 0.11:
        need(abs(resid(v1, dc, dc)) < 1e-9, "residual at a balanced field")
        need(dc == da or resid(v1, dc, da) != 0, "no residual although the distances differ (%r, %r)" % (dc, da))
    if dc > da:
        need(abs(resid(vr, dc, da)) < 1e-9, "residual at v1 = vr with the continued takeoff longer")
    elif dc < da:
        need(resid(vr, dc, da) != 0, "no residual at v1 = vr although the rejected takeoff is longer")
    need(resid(vr + 1.0, dc, da) != 0, "no residual with v1 beyond vr")
    ctx.ok()


@st.composite
def forces_at_nodes(draw):
    n = draw(st.integers(1, 7))
    W = draw(fl(500.0, 4e5))
    f = lambda lo, hi: draw(arr(n, fl(lo, hi)))
    sg = f(-0.5, 0.6)
    return dict(n=n, W=[W * x for x in f(0.6, 1.0)], L=[W * G0 * x for x in f(-0.5, 4.5)], D=[W * G0 * x for x in f(0.0, 0.3)], T=[W * G0 * x for x in f(0.0, 0.8)], mu=f(0.0, 0.6), sg=sg)


@sub("C08", "motion", forces_at_nodes(), quick=150, thorough=3000, rule="accelerations evaluated")
def motion(case, ctx):
    """Equations of motion node by node, also where the wing lifts more than the weight."""
    n = case["n"]
    W, L, D, T, mu, sg = (np.array(case[k]) for k in ("W", "L", "D", "T", "mu", "sg"))
    cg = np.sqrt(1 - sg**2)
    p = run(HorizontalAcceleration(num_nodes=n), {"weight": W, "drag": D, "lift": L, "thrust": T, "braking": mu, "fltcond|singamma": sg})
    on_wheels = np.maximum(0.0, G0 - L / W)
    close(gv(p, "accel_horiz", "m/s**2"), (T - D) / W - mu * on_wheels - G0 * sg, 1e-9, 1e-9, "acceleration along the path")
    p = run(VerticalAcceleration(num_nodes=n), {"weight": W, "drag": D, "lift": L, "thrust": T, "fltcond|singamma": sg, "fltcond|cosgamma": cg})
    close(gv(p, "accel_vert", "m/s**2"), np.clip((L * cg + (T - D) * sg) / W - G0, -G0, 2.5 * G0), 1e-9, 1e-9, "vertical acceleration")
    ctx.ok()
    if np.any(on_wheels == 0) and np.any(on_wheels > 0):
        ctx.tag("off the wheels at some nodes")
