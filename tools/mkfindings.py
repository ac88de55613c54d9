"""Writes known_findings.json."""
import json, os

K, F = [], []


def known(key, prop, what):
    K.append(dict(key=key, property=prop, status="known", what=what))


def fixed(prop, commit, what):
    F.append(dict(key="fixed-" + commit, property=prop, status="fixed", what="fixed: property=%s %s %s" % (prop, commit, what)))


known("gear-feet-as-inches", "C18", "LandingGearWeight_SmallTurboprop divides gear lengths given in feet by 12, although the published regression (Raymer 15.50/15.51) divides lengths in inches: W_gear is too low")
known("hydraulics-product", "C18", "EquipmentWeight_SmallTurboprop raises fuselage length times span to the power 0.937 in the hydraulics weight, where the published regression (Raymer 15.37) uses their sum")
known("pressvessel-area", "C18", "FuselageWeight_SmallTurboprop uses the lateral area pi*d*0.8L as the pressurised volume in the pressurisation penalty (Raymer 15.49 uses the volume)")
known("wavedrag-area-inverse", "C19", "WaveDragFromSections with specify_area_norm multiplies the coefficient by S_ref/S_region instead of S_region/S_ref (the existing test test_area_norm asserts the inverted factor)")

fixed("C02", "4b24a66", "OldIntegrator with a single node and zero_start raised TypeError")
fixed("C01", "d3a46d5", "integrator partials with respect to time bounds or segment time steps failed when the integral is zero at some node")
fixed("C05", "efa6d13", "AddSubtractComp lost its units when the model was set up a second time")
fixed("C05", "0deeb22", "ElementMultiplyDivideComp built an invalid unit when the first input has none")
fixed("C01", "ec0d6ae", "partials of AddSubtractComp and ElementMultiplyDivideComp for a single row combined with several rows of length > 1")
fixed("C25", "a23d175", "plot_OAS_force_contours ignored the width of the panels' back edge when computing panel areas")
fixed("C25", "aad87ab", "plot_trajectory_grid failed when no y labels are given")
fixed("C25", "644e58c", "plot_trajectory_grid failed for a grid layout with a single row or column")
fixed("C26", "172ab16", "DVLabel modified the list of variables handed in by the user")
fixed("C11", "d8ce901", "SimplePropeller with three blades always raised NotImplementedError")
fixed("C13", "1b1795c", "heat pipe wick resistance ignored the wick conductivity")
fixed("C14", "a18924c", "heat exchanger hot side fouling resistance replaced the cold side one and was counted twice")
fixed("C01", "ae27e21", "VerticalAcceleration partials ignored that the output is clipped")
fixed("C12", "44d672c", "SeriesHybridElectricPropulsionSystem could not be set up (promoted fltcond_* instead of fltcond|*)")
fixed("C13", "c2f797e", "COPExplicit returned NaN when hot and cold side temperatures are equal")
fixed("C09", "de5d42f", "a TrajectoryGroup with linked phases failed on a second Problem.setup() (links connected twice)")
fixed("C07", "438fe6e", "MissionWithReserve began its climb at 0 m whatever takeoff|h")
fixed("C07", "03ee802", "the reserve climb began at 0 m whatever the landing altitude takeoff|h")
fixed("C08", "a324694", "RobustRotationPhase(h_obstacle=...) ignored the option: it always cleared the default obstacle height")
fixed("C20", "33930c3", "VLMDragPolar interpolated t/c with cosine spacing on the evenly spaced trapezoidal mesh")
fixed("C20", "b1cdbb9", "VLM and aerostructural training caches kept inputs of a failed analysis and served data of other inputs afterwards")
fixed("C20", "de7292b", "VLMDragPolar and AerostructDragPolar rejected training points given as the documented lists")

fixed("C01", "dacaf48", "PropCoefficients: derivative of the advance ratio is NaN at zero airspeed")
fixed("C01", "c541ea2", "ThrustCalc: derivatives are NaN where the efficiency or ct/cp is zero")
fixed("C27", "ffac051", "PropCoefficients: the tip speed output had no unit")
fixed("C20", "e5dddac", "VLMDragPolar, AerostructDragPolar: two polars with different training points or mesh sizes in a process used each other's training grid")
fixed("C20", "df27aed", "Aerostruct, AerostructDragPolar with the surface option struct_weight_relief=False failed to set up")

path = os.path.join(os.path.dirname(__file__), "..", "known_findings.json")
with open(path, "w") as f:
    json.dump({"findings": K + F}, f, indent=1)
    f.write("\n")
