"""C24: total derivatives of whole missions against missions solved again with perturbed inputs."""
import contextlib
import importlib
import io
import warnings
import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

from ..core import sub, need
from ..lib import fl, gv, bools
from ..solve import NotConverged
from .. import mission as M
from .. import examples as EX


# ------------------------------------------------------------------ comparing
def total_check(p, solve, of, wrt, dirs, ctx, what, rtol=3e-4):
    """of: names; wrt: names.  dirs: list of {name: direction}; a unit step is the perturbation size."""
    of = list(dict.fromkeys(of))
    f0 = np.concatenate([gv(p, o).ravel() for o in of])
    label = [o for o in of for _ in range(gv(p, o).size)]
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        J = p.compute_totals(of, wrt)
    x0 = {w: gv(p, w).copy() for w in wrt}
    # scale of each result, to tell rounding from change
    mag = np.concatenate([np.full(gv(p, o).size, max(np.max(np.abs(gv(p, o))), 1e-6)) for o in of])
    concl = 0
    for d in dirs:
        ana = np.concatenate([sum(np.atleast_2d(J[o, w]).reshape(gv(p, o).size, -1) @ np.ravel(d[w]) for w in d) for o in of])

        def f(t):
            for w in d:
                p.set_val(w, x0[w] + t * np.reshape(d[w], x0[w].shape))
            solve(p)
            return np.concatenate([gv(p, o).ravel() for o in of])
        try:
            a, b = ((f(t) - f(-t)) / (2 * t) for t in (1.0, 0.5))
        except NotConverged:
            ctx.tag("perturbed mission not converged")
            continue
        finally:
            for w in d:
                p.set_val(w, x0[w])
        fd = (4 * b - a) / 3
        err = np.abs(fd - b)
        floor = 2e-7 * mag
        scale = np.maximum(np.abs(fd), np.abs(ana))
        ok = (err <= 2e-3 * scale + floor)
        bad = ok & ~(np.abs(fd - ana) <= rtol * scale + err + 3 * floor)
        concl += int(np.sum(ok & (scale > 10 * floor)))
        if np.any(bad):
            # a kink inside the stencil: judge by smaller steps
            try:
                g = lambda t: f(t)  # noqa: E731
                e1 = (g(0.05) - g(-0.05)) / 0.1
                base = g(0.0)
                right, left = (g(0.05) - base) / 0.05, (base - g(-0.05)) / 0.05
            except NotConverged:
                continue
            finally:
                for w in d:
                    p.set_val(w, x0[w])
            # an intact comparison: left, right and central differences agree among themselves but not with the total
            gap = np.abs(fd - ana)
            bad &= (np.abs(right - left) <= 0.1 * gap) & (np.abs(e1 - fd) <= 0.1 * gap)
        if np.any(bad):
            i = int(np.argmax(np.where(bad, np.abs(fd - ana) / (scale + floor), 0)))
            need(False, "%s: change of %s for a small change of %s: totals say %.9g, solving again gives %.9g (+- %.2g)" % (what, label[i], sorted(d), ana[i], fd[i], err[i]))
    try:
        solve(p)
    except NotConverged:
        pass
    return concl


# ------------------------------------------------------------------ generated missions
def inputs(cfg):
    """Design inputs of a generated mission with a perturbation scale for each."""
    m = "mission."
    w = {"ac|geom|wing|S_ref": cfg["S"], "ac|geom|wing|AR": cfg["AR"], "ac|aero|polar|CD0_cruise": cfg["CD0"], "ac|aero|polar|e": cfg["e"], "ac|weights|MTOW": cfg["m0"]}
    if cfg["profile"] in ("full", "fullreserve", "ground"):
        w["ac|aero|polar|CD0_TO"] = cfg["CD0_TO"]
    if cfg["profile"] in ("full", "fullreserve"):
        w["ac|aero|CLmax_TO"] = cfg["CLmax"]
        w[m + "v0v1.throttle"] = 1.0
        w[m + "v1v0.braking"] = 0.3
        w[m + "v0v1.fltcond|CL"] = 0.1
        w[m + "engineoutclimb.v2_vstall_mult"] = 1.2
    if cfg["prop"] == "analytic":
        w["ac|propulsion|Tmax"], w["ac|propulsion|TSFC"] = cfg["Tmax"], cfg["TSFC"]
    else:
        w["ac|propulsion|engine|rating"], w["ac|propulsion|propeller|diameter"] = cfg["rating"], cfg["D"]
    if cfg["prop"] == "hybrid2":
        w["ac|weights|W_battery"], w["ac|propulsion|battery|specific_energy"], w["ac|propulsion|motor|rating"] = 0.25 * cfg["m0"], 300.0, cfg["rating"]
    w[m + "mission_range"] = cfg["range"] / 1852.0
    w[m + "cruise|h0"] = 0.5 * cfg["h0"]
    w[m + "takeoff|h"] = 200.0
    if "reserve" in cfg["profile"]:
        w[m + "reserve_range"], w[m + "reserve|h0"], w[m + "loiter_duration"], w[m + "loiter|h0"] = cfg["rR"] / 1000.0, cfg["hR"] / 0.3048, cfg["tL"] / 60.0, cfg["hL"]
    for ph in M.FLIGHT[cfg["profile"]]:
        w[m + ph + ".fltcond|Ueas"] = np.mean(cfg["phases"][ph]["Ueas"])
        v = np.mean(np.abs(cfg["phases"][ph]["vs"]))
        if v > 0.1:
            w[m + ph + ".fltcond|vs"] = v / 0.00508
    return w


def results(cfg):
    m = "mission."
    of = []
    for ph in M.FLIGHT[cfg["profile"]]:
        of += [m + ph + "." + k for k in ("fuel_used", "duration", "throttle", "range")]
        if cfg["prop"] == "hybrid2":
            of.append(m + ph + ".propmodel.batt1.SOC")
    if cfg["profile"] in ("full", "fullreserve"):
        of += [m + "takeoff|v1", m + "v0v1.range", m + "v1v0.range", m + "rotate.range_final", m + "v1vr.duration", m + "rotate.fltcond|h", m + "rotate.fuel_used"]
        of += [m + "engineoutclimb.gamma"]
    if cfg["profile"] == "ground":
        of += [m + "groundroll.range", m + "groundroll.fltcond|Utrue"]
    return of


@st.composite
def cases(draw, **kw):
    if draw(bools):
        c = draw(M.pairs(**kw))
    else:
        c = dict(a=draw(M.missions(**kw)))
    c["mode"] = draw(st.sampled_from(["fwd", "rev"]))
    c["pick"] = [draw(st.integers(0, 10**6)) for _ in range(2)]
    c["phase"] = draw(fl(0, 6.28))
    return c


def run_case(c, ctx):
    cfg = c["a"]
    p = M.problem(cfg)
    p.setup(check=False, mode=c["mode"])
    M.set_aircraft(p, cfg)
    M.setvals(p, cfg)
    try:
        M.solve(p)
        of = results(cfg)
        if "b" in c:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                p.compute_totals(of[:3], ["ac|weights|MTOW"])
            cfg = c["b"]
            M.set_aircraft(p, cfg)
            M.setvals(p, cfg)
            M.solve(p)
            ctx.tag("second design")
    except NotConverged:
        ctx.skipped = True
        return
    scale = inputs(cfg)
    wrt = sorted(scale)
    k0 = wrt[c["pick"][0] % len(wrt)]
    rng = np.cos(c["phase"] + 1.3 * np.arange(400))
    dirs = [{k0: 2e-3 * scale[k0] * (rng[:gv(p, k0).size] if gv(p, k0).size > 1 else np.ones(1))}]
    # everything at once
    joint, at = {}, 0
    for w in wrt:
        n = gv(p, w).size
        joint[w] = 1e-3 * scale[w] * rng[at:at + n]
        at += n
    dirs.append(joint)
    got = total_check(p, M.solve, of, wrt, dirs, ctx, "%s mission, %s" % (cfg["profile"], cfg["prop"]))
    ctx.tag(cfg["profile"] + "/" + cfg["prop"])
    ctx.tag(c["mode"])
    ctx.tag("varied " + k0.replace("mission.", ""))
    if got >= 10:
        ctx.ok()


PROPS = ("analytic", "analytic", "turboprop1", "turboprop2", "hybrid2")


@sub("C24", "flight", lambda: cases(profiles=("basic", "basic", "reserve", "ground"), props=PROPS, nodes=(3, 5, 5, 7)), quick=40, thorough=2500, shards=8, rule="at least ten conclusive comparisons", max_s=300)
def t_flight(c, ctx):
    run_case(c, ctx)


@sub("C24", "takeoff", lambda: cases(profiles=("full", "full", "fullreserve"), props=PROPS, nodes=(3, 5, 7)), quick=32, thorough=1500, shards=8, rule="at least ten conclusive comparisons", max_s=300)
def t_takeoff(c, ctx):
    run_case(c, ctx)


# ------------------------------------------------------------------ the example aircraft
@st.composite
def example_cases(draw):
    return dict(name=draw(st.sampled_from(sorted(EX.EXAMPLES))), seed=draw(st.integers(0, 10**6)), spread=draw(st.sampled_from([0.0, 0.02, 0.04])), pick=draw(st.integers(0, 10**6)))


@sub("C24", "examples", example_cases, quick=24, thorough=400, shards=8, rule="at least ten conclusive comparisons", max_s=300)
def t_examples(c, ctx):
    """The aircraft models shipped with the library, at varied sizings and missions."""
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        p = EX.EXAMPLES[c["name"]]("fwd")
        p.model.nonlinear_solver.options["iprint"] = -1
        rng = np.random.default_rng(c["seed"])
        pre = "mission." if "minimal" in c["name"] else ""
        ivs = sorted({m["prom_name"] for a, m in p.model.get_io_metadata(iotypes="output", tags="openmdao:indep_var").items() if m["prom_name"].startswith("ac|")} - {"ac|num_passengers_max", "ac|num_engines"})
        wrt = ivs + [pre + k for k in ("mission_range", "cruise|h0")] + [pre + ph + ".fltcond|" + k for ph in ("climb", "cruise", "descent") for k in ("Ueas", "vs")]
        wrt = [w for w in wrt if np.all(np.abs(gv(p, w)) > 1e-9)]
        try:
            p.run_model()
            for w in wrt:
                p.set_val(w, gv(p, w) * (1 + c["spread"] * rng.uniform(-1, 1)))
            EX.tight(p)
            M.solve(p)
        except (NotConverged, om.AnalysisError):
            ctx.skipped = True
            return
        phases = ["climb", "cruise", "descent"] + (["reserve_climb", "reserve_cruise", "reserve_descent", "loiter"] if "B738" in c["name"] else [])
        of = [pre + ph + "." + k for ph in phases for k in ("throttle", "duration", "range", "weight", "drag")]

        def has(o):
            try:
                gv(p, o)
                return True
            except KeyError:
                return False
        of += [o for o in ("takeoff|v1", "v1v0.range_final", "rotate.range_final", "engineoutclimb.gamma", "descent.fuel_used_final", "descent.propmodel.batt1.SOC_final", "descent.propmodel.motorheatsink.T", "descent.propmodel.duct.drag",
                           "margins.MTOW_margin", "climb.OEW") if has(o)]
        k0 = wrt[c["pick"] % len(wrt)]
        dirs = [{k0: 2e-3 * np.abs(gv(p, k0)) * (rng.uniform(-1, 1, gv(p, k0).shape) if gv(p, k0).size > 1 else 1.0)}]
        dirs.append({w: 1e-3 * np.abs(gv(p, w)) * rng.uniform(-1, 1, gv(p, w).shape) for w in wrt})
        got = total_check(p, M.solve, of, wrt, dirs, ctx, "example " + c["name"])
    ctx.tag(c["name"])
    if got >= 10:
        ctx.ok()
