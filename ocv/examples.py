"""The aircraft models shipped with the library, set up as their own scripts do."""
import importlib

import numpy as np
import openmdao.api as om


def _caravan(mode):
    mod = importlib.import_module("openconcept.examples.Caravan")
    p = om.Problem(reports=False)
    p.model = mod.CaravanAnalysisGroup()
    p.model.nonlinear_solver = om.NewtonSolver(solve_subsystems=True)
    p.model.linear_solver = om.DirectSolver()
    p.setup(check=False, mode=mode)
    for k, v, u in (("climb.fltcond|vs", 850.0, "ft/min"), ("climb.fltcond|Ueas", 104.0, "kn"), ("cruise.fltcond|vs", 0.01, "ft/min"), ("cruise.fltcond|Ueas", 129.0, "kn"), ("descent.fltcond|vs", -400.0, "ft/min"),
                    ("descent.fltcond|Ueas", 100.0, "kn"), ("v0v1.fltcond|Utrue", 40.0, "kn"), ("v1vr.fltcond|Utrue", 70.0, "kn"), ("v1v0.fltcond|Utrue", 60.0, "kn"), ("rotate.fltcond|Utrue", 80.0, "kn")):
        p.set_val(k, np.full(11, v), units=u)
    p.set_val("cruise|h0", 18000.0, units="ft")
    p.set_val("mission_range", 250.0, units="NM")
    p["climb.OEW.structural_fudge"] = 1.67
    return p


def _tbm(mode):
    return importlib.import_module("openconcept.examples.TBM850").run_tbm_analysis()


def _std(module, args, after=None):
    def make(mode):
        mod = importlib.import_module("openconcept.examples." + module)
        p = mod.configure_problem()
        p.setup(check=False, mode=mode)
        mod.set_values(p, *args)
        for k, v in (after or {}).items():
            p[k] = v
        return p
    return make


def _minimal(mode):
    mod = importlib.import_module("openconcept.examples.minimal")
    return mod.setup_problem()


def _minimal_integrator(mode):
    mod = importlib.import_module("openconcept.examples.minimal_integrator")
    return importlib.import_module("openconcept.examples.minimal").setup_problem(model=mod.MissionAnalysisWithFuelBurn)


# HybridTwin_active_thermal is not here: it does not converge as shipped (its own test is switched off upstream)
EXAMPLES = {"Caravan": _caravan, "TBM850": _tbm, "KingAirC90GT": _std("KingAirC90GT", (11,)), "B738": _std("B738", (11,)), "ElectricSinglewithThermal": _std("ElectricSinglewithThermal", (11,)),
            "HybridTwin": _std("HybridTwin", (11, 500, 450), {"cruise.hybridization": 0.0584}), "HybridTwin_thermal": _std("HybridTwin_thermal", (11, 500, 450), {"cruise.hybridization": 0.0584}),
            "minimal": _minimal, "minimal_integrator": _minimal_integrator}


def tight(p):
    s = p.model.nonlinear_solver
    for k, v in (("iprint", -1), ("maxiter", 40), ("atol", 2e-8), ("rtol", 1e-13), ("stall_limit", 5), ("stall_tol", 1e-3), ("err_on_non_converge", True)):
        s.options[k] = v


def vary(p, pre, spread, rng):
    """Run as shipped, then move every aircraft size and mission request by up to `spread`; returns what was asked for."""
    ivs = sorted({m["prom_name"] for a, m in p.model.get_io_metadata(iotypes="output", tags="openmdao:indep_var").items() if m["prom_name"].startswith("ac|")} - {"ac|num_passengers_max", "ac|num_engines"})
    wrt = ivs + [pre + k for k in ("mission_range", "cruise|h0")] + [pre + ph + ".fltcond|" + k for ph in ("climb", "cruise", "descent") for k in ("Ueas", "vs")]
    wrt = [w for w in wrt if np.all(np.abs(p.get_val(w)) > 1e-9)]
    p.run_model()
    ask = {}
    for w in wrt:
        ask[w] = np.array(p.get_val(w)) * (1 + spread * rng.uniform(-1, 1))
        p.set_val(w, ask[w])
    return ask
