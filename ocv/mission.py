"""Generated aircraft and missions: parametric aircraft models, mission profiles around them, solving.

The analytic aircraft is simple enough for its thrust, drag, fuel flow and weight to be recomputed by
hand from the states (see `ref_aircraft`); the others put the library's propulsion systems in its place.
"""
import warnings
import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

from .lib import fl, arr, bools
from .solve import NotConverged
from openconcept.mission import BasicMission, MissionWithReserve, FullMissionAnalysis, FullMissionWithReserve, IntegratorGroup
from openconcept.aerodynamics import PolarDrag
from openconcept.utilities import Integrator, AddSubtractComp
import openconcept.propulsion as P

G = 9.80665
RHO0 = 1.225
TO = ("v0v1", "v1vr", "v1v0", "rotate")
CODES = TO + ("EngineOutClimbAngle", "climb", "cruise", "descent", "reserve_climb", "reserve_cruise", "reserve_descent", "loiter")


def us_sigma(h):
    """Density ratio of the standard atmosphere (rough guess used to choose feasible missions)."""
    return (1 - 2.25577e-5 * np.minimum(np.asarray(h, float), 11000.0)) ** 4.25588


# ------------------------------------------------------------------ aircraft
def aircraft(cfg):
    """An OpenConcept aircraft model class with the case's parameters baked in as ac|* inputs."""
    Base = IntegratorGroup if cfg["integ"] == "tag" else om.Group

    class Aircraft(Base):
        def initialize(self):
            self.options.declare("num_nodes", default=1)
            self.options.declare("flight_phase", default=None)

        def setup(self):
            nn = self.options["num_nodes"]
            takeoff = self.options["flight_phase"] in TO + ("EngineOutClimbAngle",)
            # what the model was told about the phase it is in, for the checks
            self.add_subsystem("told", om.IndepVarComp("phase_code", val=float(CODES.index(self.options["flight_phase"])) if self.options["flight_phase"] in CODES else -1.0))
            tags = ["integrate", "state_name:fuel_used", "state_units:kg", "state_val:1.0", "state_promotes:True"] if cfg["integ"] == "tag" else None
            if cfg["prop"] == "analytic":
                self.add_subsystem("eng", om.ExecComp(
                    ["thrust=throttle*Tmax*(rho/1.225)**m*(n-1+active)/n*(1-kU*Utrue/340.0)"],
                    thrust={"units": "N", "shape": nn}, throttle={"shape": nn}, active={"shape": nn}, rho={"units": "kg/m**3", "shape": nn}, Utrue={"units": "m/s", "shape": nn},
                    Tmax={"units": "N"}, m={"val": cfg["lapse"]}, kU={"val": cfg["kU"]}, n={"val": cfg["nprop"]}, has_diag_partials=True),
                    promotes_inputs=["throttle", ("active", "propulsor_active"), ("rho", "fltcond|rho"), ("Utrue", "fltcond|Utrue"), ("Tmax", "ac|propulsion|Tmax")], promotes_outputs=["thrust"])
                kw = {"units": "kg/s", "shape": nn}
                if tags:
                    kw["tags"] = tags
                self.add_subsystem("ff", om.ExecComp(
                    ["fuel_flow=TSFC*thrust*(1+kF*Utrue/340.0)"], fuel_flow=kw, thrust={"units": "N", "shape": nn}, Utrue={"units": "m/s", "shape": nn}, TSFC={"units": "kg/N/s"},
                    kF={"val": cfg["kF"]}, has_diag_partials=True),
                    promotes_inputs=["thrust", ("Utrue", "fltcond|Utrue"), ("TSFC", "ac|propulsion|TSFC")], promotes_outputs=["fuel_flow"])
                extra = []
            else:
                extra = self.library_propulsion(nn, tags)
            if not tags:
                integ = self.add_subsystem("intfuel", Integrator(num_nodes=nn, method="simpson", diff_units="s", time_setup="duration"), promotes_inputs=["fuel_flow"],
                                           promotes_outputs=["fuel_used", "fuel_used_final"])
                integ.add_integrand("fuel_used", rate_name="fuel_flow", units="kg", val=1.0)
            self.add_subsystem("drg", PolarDrag(num_nodes=nn), promotes_inputs=["fltcond|CL", "ac|geom|wing|S_ref", "ac|geom|wing|AR", ("CD0", "ac|aero|polar|CD0_TO" if takeoff else "ac|aero|polar|CD0_cruise"),
                                                                                   "fltcond|q", ("e", "ac|aero|polar|e")], promotes_outputs=["drag"])
            self.add_subsystem("wgt", AddSubtractComp(output_name="weight", input_names=["ac|weights|MTOW", "fuel_used"], units="kg", vec_size=[1, nn], scaling_factors=[1, -1]),
                               promotes_inputs=["ac|weights|MTOW", "fuel_used"], promotes_outputs=["weight"])
            order = ["told"] + (["eng", "ff"] if cfg["prop"] == "analytic" else extra) + (["ode_integ"] if tags else ["intfuel"]) + ["drg", "wgt"]
            if cfg["order"]:
                self.set_order(order)

        def library_propulsion(self, nn, tags):
            kind = cfg["prop"]
            common = ["fltcond|rho", "fltcond|Utrue", "throttle", "ac|propulsion|propeller|diameter", "ac|propulsion|engine|rating"]
            rpm = np.full(nn, 2000.0)
            tot = dict(output_name="fuel_flow", units="kg/s", vec_size=[nn], input_names=["ff_raw"])
            if kind == "turboprop1":
                self.add_subsystem("propmodel", P.TurbopropPropulsionSystem(num_nodes=nn), promotes_inputs=common, promotes_outputs=["thrust"])
                self.set_input_defaults("propmodel.prop1.rpm", val=rpm, units="rpm")
            elif kind == "turboprop2":
                self.add_subsystem("propmodel", P.TwinTurbopropPropulsionSystem(num_nodes=nn), promotes_inputs=common + ["propulsor_active"], promotes_outputs=["thrust"])
                for k in (1, 2):
                    self.set_input_defaults("propmodel.prop%d.rpm" % k, val=rpm, units="rpm")
            elif kind == "hybrid2":
                self.add_subsystem("propmodel", P.TwinSeriesHybridElectricPropulsionSystem(num_nodes=nn), promotes_inputs=common + [
                    "propulsor_active", "duration", "ac|propulsion|motor|rating", "ac|propulsion|generator|rating", "ac|weights|W_battery", "ac|propulsion|battery|specific_energy"], promotes_outputs=["thrust"])
                for k in (1, 2):
                    self.set_input_defaults("propmodel.prop%d.rpm" % k, val=rpm, units="rpm")
                self.set_input_defaults("propmodel.hybrid_split.power_split_fraction", val=np.full(nn, cfg["hyb"]))
            if tags:
                tot["tags"] = tags
            self.add_subsystem("ffsum", AddSubtractComp(**tot), promotes_outputs=["fuel_flow"])
            self.connect("propmodel.fuel_flow", "ffsum.ff_raw")
            return ["propmodel", "ffsum"]
    return Aircraft


def told(p, ph):
    """The flight_phase the aircraft model of mission phase `ph` was given."""
    k = [m["prom_name"] for m in p.model.get_io_metadata(iotypes="output").values() if m["prom_name"].startswith("mission.%s." % ph) and m["prom_name"].endswith("phase_code")]
    v = int(p.get_val(k[0]).ravel()[0]) if len(k) == 1 else None
    return "%d models" % len(k) if v is None else CODES[v] if v >= 0 else None


# ------------------------------------------------------------------ problem
FLIGHT = {"basic": ["climb", "cruise", "descent"], "ground": ["climb", "cruise", "descent"], "full": ["climb", "cruise", "descent"],
          "reserve": ["climb", "cruise", "descent", "reserve_climb", "reserve_cruise", "reserve_descent", "loiter"]}
FLIGHT["fullreserve"] = FLIGHT["reserve"]


def problem(cfg, iprint=-1):
    kw = dict(num_nodes=cfg["n"], aircraft_model=aircraft(cfg))
    prof = cfg["profile"]
    if prof == "basic":
        m = BasicMission(**kw)
    elif prof == "ground":
        m = BasicMission(include_ground_roll=True, **kw)
    elif prof == "reserve":
        m = MissionWithReserve(**kw)
    elif prof == "full":
        m = FullMissionAnalysis(transition_method=cfg["transition"], **kw)
    elif prof == "fullreserve":
        m = FullMissionWithReserve(transition_method=cfg["transition"], **kw)
    p = om.Problem(reports=False)
    iv = p.model.add_subsystem("ac", om.IndepVarComp(), promotes_outputs=["*"])
    iv.add_output("ac|geom|wing|S_ref", val=cfg["S"], units="m**2")
    iv.add_output("ac|geom|wing|AR", val=cfg["AR"])
    iv.add_output("ac|aero|polar|CD0_cruise", val=cfg["CD0"])
    iv.add_output("ac|aero|polar|CD0_TO", val=cfg["CD0_TO"])
    iv.add_output("ac|aero|polar|e", val=cfg["e"])
    iv.add_output("ac|aero|CLmax_TO", val=cfg["CLmax"])
    iv.add_output("ac|weights|MTOW", val=cfg["m0"], units="kg")
    if cfg["prop"] == "analytic":
        iv.add_output("ac|propulsion|Tmax", val=cfg["Tmax"], units="N")
        iv.add_output("ac|propulsion|TSFC", val=cfg["TSFC"], units="kg/N/s")
    else:
        iv.add_output("ac|propulsion|engine|rating", val=cfg["rating"], units="kW")
        iv.add_output("ac|propulsion|propeller|diameter", val=cfg["D"], units="m")
    if cfg["prop"] == "hybrid2":
        iv.add_output("ac|propulsion|motor|rating", val=cfg["rating"], units="kW")
        iv.add_output("ac|propulsion|generator|rating", val=2.1 * cfg["rating"], units="kW")
        iv.add_output("ac|weights|W_battery", val=0.25 * cfg["m0"], units="kg")
        iv.add_output("ac|propulsion|battery|specific_energy", val=300.0, units="W*h/kg")
    p.model.add_subsystem("mission", m, promotes_inputs=["ac|*"])
    p.model.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, maxiter=40, atol=2e-8, rtol=1e-13, iprint=iprint, err_on_non_converge=True)
    p.model.nonlinear_solver.options["stall_limit"] = 5
    p.model.nonlinear_solver.options["stall_tol"] = 1e-3
    p.model.linear_solver = om.DirectSolver()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p.setup(check=False)
        setvals(p, cfg)
    return p


def set_aircraft(p, cfg):
    for k, key, u in (("ac|geom|wing|S_ref", "S", "m**2"), ("ac|geom|wing|AR", "AR", None), ("ac|aero|polar|CD0_cruise", "CD0", None), ("ac|aero|polar|CD0_TO", "CD0_TO", None),
                      ("ac|aero|polar|e", "e", None), ("ac|aero|CLmax_TO", "CLmax", None), ("ac|weights|MTOW", "m0", "kg")):
        p.set_val(k, cfg[key], units=u)
    if cfg["prop"] == "analytic":
        p.set_val("ac|propulsion|Tmax", cfg["Tmax"], units="N")
        p.set_val("ac|propulsion|TSFC", cfg["TSFC"], units="kg/N/s")
    else:
        p.set_val("ac|propulsion|engine|rating", cfg["rating"], units="kW")
        p.set_val("ac|propulsion|propeller|diameter", cfg["D"], units="m")
    if cfg["prop"] == "hybrid2":
        p.set_val("ac|propulsion|motor|rating", cfg["rating"], units="kW")
        p.set_val("ac|propulsion|generator|rating", 2.1 * cfg["rating"], units="kW")
        p.set_val("ac|weights|W_battery", 0.25 * cfg["m0"], units="kg")


def setvals(p, cfg):
    M = "mission."
    for ph in FLIGHT[cfg["profile"]]:
        d = cfg["phases"][ph]
        p.set_val(M + ph + ".fltcond|vs", np.array(d["vs"]) / 0.00508, units="ft/min")
        p.set_val(M + ph + ".fltcond|Ueas", np.array(d["Ueas"]), units="m/s")
        if any(d["dT"]) or cfg.get("second"):
            p.set_val(M + ph + ".fltcond|TempIncrement", d["dT"], units="degC")
        if any(a != 1.0 for a in d.get("act", [])) or (cfg.get("second") and "act" in d):
            p.set_val(M + ph + ".propulsor_active", d["act"])
    p.set_val(M + "cruise|h0", cfg["h0"], units="m")
    p.set_val(M + "mission_range", cfg["range"] / 1852.0, units="NM")
    p.set_val(M + "takeoff|h", cfg["hTO"], units="m")
    if "reserve" in cfg["profile"]:
        p.set_val(M + "reserve|h0", cfg["hR"] / 0.3048, units="ft")
        p.set_val(M + "loiter|h0", cfg["hL"], units="m")
        p.set_val(M + "reserve_range", cfg["rR"] / 1000.0, units="km")
        p.set_val(M + "loiter_duration", cfg["tL"] / 60.0, units="min")
    vst = np.sqrt(2 * cfg["m0"] * G / (RHO0 * cfg["S"] * cfg["CLmax"]))
    if cfg["profile"] in ("full", "fullreserve"):
        n = cfg["n"]
        for ph, f in (("v0v1", 0.6), ("v1vr", 1.0), ("v1v0", 0.9)):
            p.set_val(M + ph + ".fltcond|Utrue", np.full(n, f * vst), units="m/s")
        if cfg["transition"] == "ode":
            p.set_val(M + "rotate.fltcond|Utrue", np.full(n, 1.15 * vst), units="m/s")
        p.set_val(M + "takeoff|v1", 1.0 * vst, units="m/s")
        for ph in ("v0v1", "v1vr", "rotate"):
            p.set_val(M + ph + ".throttle", np.full(n, cfg["thrTO"]))
        p.set_val(M + "v0v1.braking", np.full(n, cfg["mu"]))
        p.set_val(M + "v1vr.braking", np.full(n, cfg["mu"]))
        p.set_val(M + "v1v0.braking", np.full(n, cfg["muB"]))
        for ph in ("v0v1", "v1vr", "v1v0"):
            p.set_val(M + ph + ".fltcond|CL", np.full(n, cfg["CLg"]))
            p.set_val(M + ph + ".vr_vstall_mult", cfg["vrm"])
        if cfg["transition"] == "simplified":
            p.set_val(M + "rotate.vr_vstall_mult", cfg["vrm"])
            p.set_val(M + "rotate.v2_vstall_mult", cfg["v2m"])
        p.set_val(M + "engineoutclimb.v2_vstall_mult", cfg["v2m"])
    elif cfg["profile"] == "ground":
        n = cfg["n"]
        p.set_val(M + "takeoff|v2", 1.2 * vst, units="m/s")
        p.set_val(M + "groundroll.fltcond|Utrue", np.full(n, 0.6 * vst), units="m/s")


def solve(p):
    """Run to convergence; a mission that does not converge gives no verdict."""
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            p.run_model()
        except (om.AnalysisError, RuntimeError, ValueError, np.linalg.LinAlgError) as e:
            if isinstance(e, om.AnalysisError) and "stalled" in str(e):
                p.model.run_apply_nonlinear()
                if p.model._residuals.get_norm() < 1e-7:  # stalled at rounding level
                    return
            if isinstance(e, om.AnalysisError) or any(s in str(e) for s in ("singular", "Singular", "infs or NaNs", "infs or nans", "NaN")):
                raise NotConverged(str(e)[:200])
            raise


# ------------------------------------------------------------------ generator
@st.composite
def missions(draw, profiles=("basic",), props=("analytic",), nodes=(3, 5, 5, 7, 9)):
    c = dict(profile=draw(st.sampled_from(list(profiles))), prop=draw(st.sampled_from(list(props))), n=draw(st.sampled_from(list(nodes))), integ=draw(st.sampled_from(["tag", "explicit"])), order=draw(bools))
    c["transition"] = draw(st.sampled_from(["simplified", "ode"]))
    n = c["n"]
    analytic = c["prop"] == "analytic"
    c["nprop"] = draw(st.sampled_from([2, 2, 3, 4])) if analytic else 2
    if analytic:
        c["S"], WS = draw(fl(20.0, 120.0)), draw(fl(1500.0, 5500.0))
    else:
        c["S"], WS = draw(fl(18.0, 30.0)), draw(fl(1200.0, 1900.0))
    c["m0"] = WS * c["S"] / G
    c["AR"], c["e"], c["CD0"] = draw(fl(7.0, 13.0)), draw(fl(0.7, 0.9)), draw(fl(0.018, 0.032))
    c["CD0_TO"] = c["CD0"] + draw(fl(0.004, 0.015))
    c["CLmax"] = draw(fl(1.6, 2.4))
    c["lapse"], c["kU"], c["kF"] = draw(fl(0.5, 0.9)), draw(fl(0.0, 0.3)), draw(fl(0.0, 0.5))
    TW = draw(fl(0.32, 0.5))
    c["Tmax"], c["TSFC"] = TW * WS * c["S"], draw(fl(3e-6, 1.8e-5))
    c["rating"] = draw(fl(9.0, 13.0)) * c["m0"] * G * 1e-3 * 2.0 / (1 if c["prop"] == "turboprop1" else 2)
    c["hyb"] = draw(fl(0.02, 0.3))
    c["D"] = draw(fl(2.1, 2.8))
    CLs = {ph: draw(fl(0.3, 0.62)) for ph in FLIGHT["reserve"]}

    def ueas(CL):
        return np.sqrt(2 * WS / (RHO0 * CL))

    def dw(CL):
        return (c["CD0"] + CL**2 / (np.pi * c["AR"] * c["e"])) / CL

    def tw(h, U):
        s = us_sigma(h)
        if analytic:
            return TW * s ** c["lapse"] * (1 - c["kU"] * U / 340.0)
        return 0.7 * 2 * min(c["rating"], 1e9) * (1 if c["prop"] == "turboprop1" else 2) * 0.5e3 * s**0.0 / U / (c["m0"] * G)
    c["hTO"] = draw(st.one_of(st.just(0.0), fl(-300.0, 1500.0)))
    h0max = 12800.0 if analytic else 7000.0
    c["h0"] = c["hTO"] + draw(fl(0.2, 1.0)) * (h0max - c["hTO"])
    c["hR"] = c["hTO"] + draw(fl(0.2, 0.7)) * (c["h0"] - c["hTO"])
    c["hL"], c["tL"], c["rR"] = draw(fl(300.0, 2500.0)), draw(fl(400.0, 3600.0)), draw(fl(60e3, 300e3))
    # lower the cruise altitude until there is some excess thrust left there
    for ph, key in (("climb", "h0"), ("reserve_climb", "hR")):
        U = ueas(CLs[ph])
        for _ in range(30):
            s = np.sqrt(us_sigma(c[key]))
            if 0.8 * tw(c[key], U / s) - dw(CLs[ph]) > 0.02 and 0.8 * tw(c[key], ueas(CLs["cruise"]) / s) > dw(CLs["cruise"]):
                break
            c[key] = c["hTO"] + 0.85 * (c[key] - c["hTO"])
    c["phases"] = {}
    wob = draw(st.sampled_from([0.0, 0.0, 0.04, 0.08]))
    dist = 0.0
    for ph in FLIGHT["reserve"]:
        CL, f = CLs[ph], draw(fl(0.25, 0.75))
        U = ueas(CL)
        top = c["hR"] if "reserve" in ph else c["h0"]
        if "climb" in ph:
            vs = max(0.5, f * min((0.85 * tw(h, U / np.sqrt(us_sigma(h))) - dw(CL)) * U / np.sqrt(us_sigma(h)) for h in (c["hTO"], top)))
        elif "descent" in ph:
            vs = -f * dw(CL) * U
        elif "cruise" in ph:
            vs = draw(st.sampled_from([0.0, 0.0, 5e-5, 0.02, 0.2, -0.1]))
        else:
            vs = 0.0
        u = U * (1 + wob * np.array(draw(arr(n, fl(-1.0, 1.0))))) if wob else np.full(n, U)
        v = vs * (1 + wob * np.array(draw(arr(n, fl(-1.0, 1.0))))) if wob and vs else np.full(n, vs)
        dT = [draw(fl(-25.0, 25.0))] * n if draw(st.integers(0, 4)) == 0 else [0.0] * n
        c["phases"][ph] = dict(Ueas=[float(x) for x in u], vs=[float(x) for x in v], dT=dT)
        if analytic:  # part of the thrust missing during the phase
            c["phases"][ph]["act"] = [draw(fl(0.7, 1.0)) for _ in range(n)] if draw(st.integers(0, 7)) == 0 else [1.0] * n
        if ph in ("climb", "descent"):
            dist += abs((c["h0"] - c["hTO"]) / vs) * U / np.sqrt(us_sigma(0.5 * (c["h0"] + c["hTO"])))
        elif ph in ("reserve_climb", "reserve_descent"):
            c["rR"] += abs((c["hR"] - c["hTO"]) / vs) * U / np.sqrt(us_sigma(0.5 * (c["hR"] + c["hTO"])))
    c["range"] = 1.1 * dist + draw(fl(50e3, 1200e3 if analytic else 500e3))
    # takeoff
    c["thrTO"], c["mu"], c["muB"], c["CLg"] = draw(fl(0.85, 1.0)), draw(fl(0.015, 0.05)), draw(fl(0.25, 0.5)), draw(fl(0.0, 0.4))
    c["vrm"] = draw(fl(1.05, 1.15))
    c["v2m"] = draw(fl(1.18, 1.3))
    return c


@st.composite
def pairs(draw, **kw):
    """Two missions for the same model: another aircraft sizing and another mission, same structure."""
    a = draw(missions(**kw))
    b = draw(missions(profiles=(a["profile"],), props=(a["prop"],), nodes=(a["n"],)))
    for k in ("integ", "order", "transition", "lapse", "kU", "kF", "nprop", "hyb"):
        b[k] = a[k]
    b["second"] = True
    return dict(a=a, b=b)
