"""Every component and small group the library ships, with the configurations and input ranges used
by the checks that apply to all of them (derivatives, node independence, history independence).

An entry describes how to build the component from a drawn JSON configuration and in which range
each of its inputs is physically meaningful.  Input names, shapes and units are read from the
component itself at run time, so an added or renamed input only needs a range.
"""
import json
import numpy as np
import openmdao.api as om
from hypothesis import strategies as st
from openmdao.utils.units import unit_conversion

from .lib import fl, bools, arr, tail

from openconcept import aerodynamics as AE, atmospherics as AT, costs as CO, geometry as GE, stability as SB
from openconcept import propulsion as PR, thermal as TH, weights as WE, energy_storage as ES, utilities as UT
from openconcept.aerodynamics import CL_max_estimation as CLM, aerodynamics as AA, drag_jet_transport as DJ
from openconcept.aerodynamics import openaerostruct as OA
from openconcept.aerodynamics.openaerostruct import mesh_gen as MG, wave_drag as WD
from openconcept.mission import phases as PH
from openconcept.propulsion import propeller as PP
from openconcept.propulsion.empirical_data import prop_maps as PM
from openconcept.weights import weights_turboprop as WT, weights_BWB as WB, weights_jet_transport as WJ, weights_twin_hybrid as WH
from openconcept.atmospherics import (pressure_comp as A1, temperature_comp as A2, true_airspeed as A3, mach_number_comp as A4,
                                      compute_atmos_props as A5, speedofsound_comp as A6, density_comp as A7, dynamic_pressure_comp as A8)
from openconcept.thermal import heat_exchanger as HX, ducts as DU, thermal as TT, heat_pipe as HP, chiller as CH, manifold as MF
from openconcept.thermal import battery_cooling as BC, motor_cooling as MC, hose as HO, pump as PU
from openconcept.energy_storage import battery as BA
from openconcept.energy_storage.hydrogen import structural as HS, LH2_tank_no_boil_off as HT
from openconcept.utilities.math import integrals as IN
from openconcept.utilities import selector as SE, linearinterp as LI

# ------------------------------------------------------------------ ranges: name -> (low, high, units)
R = {
    "ac|geom|wing|S_ref": (12, 400, "m**2"), "ac|geom|wing|AR": (5, 14, None), "ac|geom|wing|c4sweep": (0.01, 0.65, "rad"),
    "ac|geom|wing|taper": (0.15, 1, None), "ac|geom|wing|toverc": (0.09, 0.19, None), "ac|geom|wing|MAC": (1, 8, "m"),
    "ac|geom|hstab|S_ref": (2, 80, "m**2"), "ac|geom|hstab|AR": (3, 7, None), "ac|geom|hstab|c4sweep": (0.01, 0.6, "rad"),
    "ac|geom|hstab|taper": (0.2, 1, None), "ac|geom|hstab|toverc": (0.08, 0.16, None), "ac|geom|hstab|c4_to_wing_c4": (3, 35, "m"),
    "ac|geom|vstab|S_ref": (2, 60, "m**2"), "ac|geom|vstab|AR": (0.8, 2.5, None), "ac|geom|vstab|c4sweep": (0.01, 0.7, "rad"),
    "ac|geom|vstab|taper": (0.2, 1, None), "ac|geom|vstab|toverc": (0.08, 0.16, None), "ac|geom|vstab|c4_to_wing_c4": (3, 35, "m"),
    "ac|geom|fuselage|S_wet": (30, 900, "m**2"), "ac|geom|fuselage|length": (7, 65, "m"), "ac|geom|fuselage|height": (1.2, 6, "m"),
    "ac|geom|fuselage|width": (1.2, 6, "m"), "ac|geom|nacelle|S_wet": (2, 40, "m**2"), "ac|geom|nacelle|length": (1, 7, "m"),
    "ac|geom|maingear|length": (0.7, 4, "m"), "ac|geom|nosegear|length": (0.6, 3.5, "m"),
    "ac|geom|maingear|num_wheels": (2, 16, None), "ac|geom|nosegear|num_wheels": (1, 4, None), "ac|geom|maingear|num_shock_struts": (1, 6, None),
    "ac|geom|V_pressurized": (50, 1500, "m**3"), "ac|geom|centerbody|S_aftbody": (20, 300, "m**2"), "ac|geom|centerbody|S_cabin": (50, 500, "m**2"),
    "ac|geom|centerbody|taper_aftbody": (0.2, 0.95, None), "ac|cabin_pressure": (5e4, 9e4, "Pa"),
    "ac|weights|MTOW": (2500, 250000, "kg"), "ac|weights|MLW": (2400, 200000, "kg"), "ac|weights|W_fuel_max": (500, 60000, "kg"),
    "ac|num_passengers_max": (4, 350, None), "ac|num_cabin_crew": (1, 9, None), "ac|num_flight_deck_crew": (1, 3, None),
    "ac|aero|Mach_max": (0.3, 0.95, None), "ac|aero|Vstall_land": (30, 75, "m/s"), "ac|aero|airfoil_Cl_max": (1.2, 2.1, None),
    "ac|propulsion|num_engines": (1, 4, None), "ac|propulsion|engine|rating": (3e4, 4e5, "N"), "ac|q_cruise": (10, 250, "lbm/ft**2"),
    "W_engine": (100, 5000, "kg"), "W_propeller": (30, 300, "kg"), "W_fluids": (5, 100, "kg"), "W_fuelsystem": (20, 600, "kg"),
    "W_motors": (50, 500, "kg"), "W_generator": (50, 500, "kg"), "structural_fudge": (0.8, 2, None), "P_TO": (1e5, 3e6, "W"), "K_ws": (0.2, 3, None), "HstabConst": (0.2, 1, None),
    "ac|aero|takeoff_flap_deg": (1, 30, "deg"), "flap_extension": (1, 45, "deg"), "CL_max_clean": (1.1, 1.8, None),
    "fltcond|CL": (0.05, 1.3, None), "fltcond|q": (800, 14000, "Pa"), "fltcond|M": (0.15, 0.92, None), "CD0": (0.01, 0.05, None), "e": (0.6, 0.98, None),
    "fltcond|Utrue": (20, 250, "m/s"), "fltcond|Ueas": (20, 180, "m/s"), "fltcond|rho": (0.2, 1.4, "kg/m**3"), "fltcond|T": (205, 310, "degK"),
    "fltcond|p": (1.2e4, 1.05e5, "Pa"), "fltcond|a": (280, 355, "m/s"), "fltcond|h": (-300, 17500, "m"), "fltcond|TempIncrement": (-30, 30, "degC"), "fltcond|vs": (-12, 20, "m/s"),
    "fltcond|singamma": (-0.3, 0.4, None), "fltcond|cosgamma": (0.85, 1, None),
    "weight": (1500, 2e5, "kg"), "CLmax": (1, 3, None), "lift": (100, 1e6, "N"), "drag": (100, 1e5, "N"), "thrust": (100, 2e5, "N"), "braking": (0, 0.5, None),
    "L": (0.5, 50, "m"), "D": (0.3, 6, "m"), "toverc": (0.08, 0.2, None), "S_ref": (12, 400, "m**2"), "span": (8, 60, "m"), "AR": (5, 14, None), "taper": (0.2, 1, None), "S": (12, 400, "m**2"), "sweep": (-15, 40, "deg"),
    "FF_nacelle": (1, 2, None), "CD_flap": (0, 0.05, None), "CD_landing_gear": (0, 0.05, None),
    "toverc_sec": (0.08, 0.18, None), "chord_sec": (0.8, 8, "m"), "x_LE_sec": (-2, 8, "m"), "c4sweep": (2, 38, "deg"), "section_toverc": (0.07, 0.2, None), "property_sec": (-3, 5, None), "area_norm": (12, 400, "m**2"),
    "fuel_burn": (10, 3000, "kg"), "OEW": (800, 20000, "kg"), "component_1_weight": (0, 500, "kg"), "component_1_NR_cost": (0, 3e5, "USD"),
    "distance_continue": (300, 3000, "m"), "distance_abort": (300, 3000, "m"), "takeoff|vr": (30, 80, "m/s"), "takeoff|v1": (25, 70, "m/s"),
    "vec_in": (-5, 5, None), "h_transition": (0.5, 9, "m"), "gamma": (0.02, 0.3, "rad"),
    "shaft_power_in": (1e3, 2e6, "W"), "diameter": (1, 4.2, "m"), "rpm": (900, 2800, "rpm"), "cp": (0.02, 0.6, None), "eta_prop": (0.1, 0.95, None), "J": (0.05, 2.5, None), "ct_over_cp": (0.5, 3, None), "power_rating": (5e4, 2e6, "W"),
    "power_in": (-1e5, 2e6, "W"), "power_split_fraction": (0.05, 0.95, None), "power_split_amount": (1e3, 2e6, "W"), "elec_power_rating": (5e4, 2e6, "W"), "shaft_power_rating": (5e4, 2e6, "W"), "throttle": (0, 1.2, None),
    "efficiency": (0.2, 1, None),
    "q_in": (-5e3, 9e4, "W"), "q_out": (-5e3, 9e4, "W"), "q": (10, 9e4, "W"), "T_in": (255, 345, "degK"), "T_out": (255, 370, "degK"), "T": (230, 390, "degK"), "T_initial": (260, 350, "degK"), "duration": (30, 4000, "s"), "mdot_coolant": (0.05, 6, "kg/s"), "motor_weight": (20, 300, "kg"),
    "mass": (2, 300, "kg"), "T_surface": (270, 370, "degK"), "channel_width": (5e-4, 0.004, "m"), "channel_height": (0.004, 0.03, "m"), "channel_length": (0.1, 0.6, "m"), "n_parallel": (5, 80, None),
    "T_battery": (270, 340, "degK"), "battery_weight": (50, 3000, "kg"), "n_cpb": (20, 150, None), "t_channel": (3e-4, 0.002, "m"), "elec_load": (-2e5, 8e5, "W"), "specific_energy": (100, 600, "W*h/kg"), "SOC_initial": (0.05, 1, None),
    "hose_diameter": (0.01, 0.06, "m"), "hose_length": (0.3, 20, "m"), "hose_design_pressure": (1e5, 3e6, "Pa"), "rho_coolant": (700, 1200, "kg/m**3"), "mu_coolant": (3e-4, 0.004, "kg/m/s"), "delta_p": (0, 9e4, "Pa"),
    # heat exchangers
    "mdot_cold": (0.05, 6, "kg/s"), "mdot_hot": (0.05, 3, "kg/s"), "rho_cold": (0.3, 1.3, "kg/m**3"), "rho_hot": (700, 1100, "kg/m**3"), "k_cold": (0.018, 0.03, "W/m/degK"), "k_hot": (0.1, 0.6, "W/m/degK"), "mu_cold": (1.2e-5, 2e-5, "kg/m/s"), "mu_hot": (3e-4, 0.003, "kg/m/s"),
    "cp_cold": (990, 1020, "J/kg/degK"), "cp_hot": (1700, 4200, "J/kg/degK"), "T_in_cold": (220, 310, "degK"), "T_in_hot": (300, 370, "degK"),
    "ac|propulsion|thermal|hx|n_wide_cold": (50, 900, None), "ac|propulsion|thermal|hx|n_long_cold": (2, 8, None), "ac|propulsion|thermal|hx|n_tall": (8, 60, None), "n_wide_cold": (50, 900, None), "n_long_cold": (2, 8, None), "n_tall": (8, 60, None),
    "channel_height_cold": (0.004, 0.02, "m"), "channel_height_hot": (5e-4, 0.004, "m"), "channel_width_cold": (5e-4, 0.003, "m"), "channel_width_hot": (5e-4, 0.003, "m"), "fin_length_cold": (0.003, 0.012, "m"), "fin_length_hot": (0.003, 0.012, "m"), "fin_thickness": (6e-5, 2e-4, "m"), "plate_thickness": (1e-4, 5e-4, "m"), "case_thickness": (0.001, 0.004, "m"), "material_k": (100, 300, "W/m/degK"), "material_rho": (2500, 3000, "kg/m**3"),
    "Nu_dh_cold": (2, 60, None), "Nu_dh_hot": (2, 60, None), "dh_cold": (8e-4, 0.004, "m"), "dh_hot": (8e-4, 0.004, "m"), "h_conv_cold": (30, 800, "W/m**2/degK"), "h_conv_hot": (100, 9000, "W/m**2/degK"), "fin_area_ratio_cold": (0.3, 0.95, None), "fin_area_ratio_hot": (0.3, 0.95, None),
    "xs_area_cold": (0.005, 0.3, "m**2"), "xs_area_hot": (0.0005, 0.02, "m**2"), "Re_dh_cold": (120, 9000, None), "Re_dh_hot": (120, 9000, None), "j_cold": (0.004, 0.08, None), "j_hot": (0.004, 0.08, None), "f_cold": (0.01, 0.3, None), "f_hot": (0.01, 0.3, None),
    "alpha_cold": (0.1, 1, None), "alpha_hot": (0.1, 1, None), "delta_cold": (0.01, 0.06, None), "delta_hot": (0.01, 0.06, None), "gamma_cold": (0.04, 0.15, None), "gamma_hot": (0.04, 0.15, None),
    "heat_transfer_area_cold": (1, 40, "m**2"), "heat_transfer_area_hot": (0.5, 20, "m**2"), "eta_overall_cold": (0.3, 1, None), "eta_overall_hot": (0.3, 1, None), "UA_overall": (20, 9000, "W/degK"), "NTU": (0.05, 6, None), "C_ratio": (0.03, 0.97, None), "effectiveness": (0.05, 0.99, None), "heat_max": (1e3, 3e5, "W"), "heat_transfer": (-2e4, 9e4, "W"), "length_overall": (0.02, 0.4, "m"), "width_overall": (0.1, 1.2, "m"),
    # ducts
    "p": (2e4, 1.1e5, "Pa"), "pt": (2.5e4, 1.4e5, "Pa"), "p_exit": (2e4, 1e5, "Pa"), "p_inf": (2e4, 1.05e5, "Pa"), "T_inf": (215, 310, "degK"), "Tt": (220, 400, "degK"), "Tt_in": (220, 350, "degK"), "pt_in": (3e4, 1.2e5, "Pa"), "M": (0.05, 0.9, None), "nozzle_pressure_ratio": (0.4, 0.99, None), "mdot": (0.05, 4, "kg/s"), "rho": (0.3, 1.4, "kg/m**3"), "area": (0.02, 0.5, "m**2"), "a": (290, 380, "m/s"), "Utrue": (20, 220, "m/s"), "Utrue_inf": (20, 220, "m/s"), "area_nozzle": (0.005, 0.1, "m**2"), "p_nozzle": (2e4, 1e5, "Pa"), "rho_nozzle": (0.3, 1.4, "kg/m**3"),
    "dynamic_pressure_loss_factor": (0, 0.6, None), "pressure_recovery": (0.85, 1, None), "heat_in": (-1e3, 6e4, "W"), "eta_ram": (0.85, 1, None), "delta_p_hex": (-4000, 0, "Pa"), "mdot_actual": (0.05, 4, "kg/s"),
    # heat pipe, chiller, manifold
    "temp": (-40, 85, "degC"), "inner_diam": (0.006, 0.03, "m"), "length": (1, 15, "m"), "wall_thickness": (5e-4, 0.004, "m"), "rho_vapor": (1, 30, "kg/m**3"), "rho_liquid": (480, 690, "kg/m**3"), "vapor_pressure": (1e5, 4e6, "Pa"), "design_pressure": (0.5, 6, "MPa"), "design_temp": (30, 95, "degC"), "q_max": (500, 2e4, "W"), "delta_T": (0, 6, "degK"),
    "T_c": (250, 330, "degK"), "T_h": (270, 380, "degK"), "eff_factor": (0.1, 0.9, None), "COP": (0.5, 6, None), "specific_power": (50, 500, "W/kg"), "T_out_refrig_cold": (250, 300, "degK"), "T_out_refrig_hot": (301, 370, "degK"), "bypass": (0, 1, None),
    "mdot_in_A": (0.02, 4, "kg/s"), "mdot_in_B": (0.02, 4, "kg/s"), "T_in_A": (270, 360, "degK"), "T_in_B": (270, 360, "degK"), "mdot_in": (0.02, 4, "kg/s"), "mdot_split_fraction": (0.02, 0.98, None),
    # hydrogen
    "radius": (0.3, 3, "m"), "N_layers": (5, 40, None), "design_pressure_differential": (5e4, 6e5, "Pa"), "max_expected_operating_pressure": (1.5e5, 6e5, "Pa"), "vacuum_gap": (0.02, 0.3, "m"), "environment_design_pressure": (5e4, 1.2e5, "Pa"), "delta_m_liq": (-20, 0, "kg"), "m_dot_liq": (1e-4, 3e-3, "kg/s"), "delta_m_liq_initial": (-3, 0, "kg"),
}


def nudge(comp, cfg):
    """Scale the float options that still have their declared default, by up to 15 percent, as cfg["_nudge"] says."""
    s = cfg.get("_nudge", 0)
    if not s:
        return
    for k, (name, m) in enumerate(sorted(comp.options._dict.items())):
        d = m.get("default", m.get("val"))
        if name in cfg or name in SYS_OPTIONS or "num" in name or "size" in name or not (isinstance(d, float) or (type(d) is int and d >= 50)):
            continue
        try:
            if comp.options[name] == d:
                comp.options[name] = d * (1.0 + 0.05 * (((s * 7 + k * 3) % 7) - 3))
        except (ValueError, TypeError, RuntimeError):
            pass  # outside the declared bounds


SYS_OPTIONS = set(om.Group().options._dict) | set(om.ExplicitComponent().options._dict) | set(om.ImplicitComponent().options._dict)


@st.composite
def far(draw, lo, hi, big):
    """A number of nodes: mostly small, now and then far above what the tests and examples use."""
    if draw(st.integers(0, 31)) == 31:
        return draw(st.integers(25, 120))
    return draw(tail(lo, hi, big))


class Entry:
    def __init__(self, family, name, make, cfg=None, vec=False, ranges=None, fix=None, pre=None, solver=None, coupled=(), skip=(), dirs=None, nn=(1, 4), light=False, keep=(), guess=None, states=None, warn_only=False):
        self.family, self.name, self.make, self.vec = family, name, make, vec
        self.cfg = cfg or {}
        self.ranges = ranges or {}
        self.fix = fix            # fix(values, cfg, meta): make the drawn inputs consistent, in place
        self.pre, self.solver = pre, solver
        self.coupled = coupled    # True, or output names whose nodes are coupled in time by design
        self.skip = skip          # inputs that are left at their default (integers, switches)
        self.nn = nn
        self.light = light
        self.guess = guess or {}
        self.states = states or {}
        self.warn_only = warn_only  # no outputs
        self.keep = keep
        self._meta = {}

    def strat_cfg(self):
        d = dict(self.cfg)
        if self.vec:
            if self.vec == "simpson":
                d["num_nodes"] = st.sampled_from([1, 3, 3, 5, 5, 9, 13] * 3 + ([31, 45] if self.solver is None else []))
            else:
                d["num_nodes"] = tail(self.nn[0], self.nn[1], 3 * self.nn[1]) if self.solver is not None else far(self.nn[0], self.nn[1], 3 * self.nn[1])
        # options the entry does not list: now and then moved off their defaults (see nudge)
        d["_nudge"] = st.sampled_from([0, 0, 1, 2, 3, 4])
        return st.fixed_dictionaries(d)

    def problem(self, cfg, mode="auto", derivs=True):
        p = om.Problem(reports=False)
        comp = self.make({k: v for k, v in cfg.items() if k != "_nudge"})
        nudge(comp, cfg)
        p.model.add_subsystem("c", comp, promotes=["*"])
        if self.pre:
            self.pre(p.model, cfg)
        if self.solver:
            self.solver(p.model)
        p.setup(check=False, mode=mode, derivatives=derivs)
        return p

    def meta(self, cfg):
        """[(name, shape, units, default)] of the free inputs and [(name, shape)] of the outputs."""
        key = json.dumps(cfg, sort_keys=True)
        if key not in self._meta:
            p = self.problem(cfg)
            p.final_setup()
            ins, seen = [], set()
            rows = p.model.list_inputs(out_stream=None, units=True, shape=True, prom_name=True, is_indep_var=True)
            for _, d in sorted(rows, key=lambda r: r[1]["prom_name"]):
                n = d["prom_name"]
                if n in seen or not d.get("is_indep_var", True):
                    continue
                seen.add(n)
                ins.append((n, tuple(d["shape"]), d["units"], np.asarray(p.get_val(n, units=d["units"]), dtype=float)))
            outs, oseen = [], set()
            for _, d in sorted(p.model.list_outputs(out_stream=None, units=True, shape=True, prom_name=True, explicit=True, implicit=True), key=lambda r: r[1]["prom_name"]):
                n = d["prom_name"]
                if n.startswith("_auto_ivc") or n in oseen or n in seen:
                    continue
                oseen.add(n)
                outs.append((n, tuple(d["shape"])))
            self._meta[key] = (ins, outs)
        return self._meta[key]

    def rng(self, name, units):
        last = name.split(".")[-1]
        r = self.ranges.get(name) or self.ranges.get(last) or R.get(name) or R.get(last)
        if r is None:
            return None  # values() falls back to a range around the default
        lo, hi = r[0], r[1]
        u = r[2] if len(r) > 2 else units
        if u != units and u is not None and units is not None:
            lo, hi = (float(om.convert_units(v, u, units)) for v in (lo, hi))
        return lo, hi


def fallback(dflt):
    """Range for an input this table does not know: around its default."""
    m = float(np.max(np.abs(dflt))) if dflt.size else 1.0
    m = m if np.isfinite(m) and m > 0 else 1.0
    return 0.5 * m, 1.5 * m


@st.composite
def values(draw, e, cfg):
    """{input: nested list} for all free inputs of the entry in this configuration."""
    ins, _ = e.meta(cfg)
    v = {}
    for n, shape, units, dflt in ins:
        if n in e.skip or n.split(".")[-1] in e.skip:
            v[n] = dflt.ravel().tolist()
            continue
        r = e.rng(n, units)
        size = int(np.prod(shape))
        lo, hi = r or fallback(dflt)
        if size > 12:
            seed = draw(st.integers(0, 255)) * 256 + draw(st.integers(0, 255))
            v[n] = np.random.RandomState(seed).uniform(lo, hi, size).tolist()
        else:
            kind = draw(st.sampled_from(["indep", "indep", "indep", "const"])) if size > 1 else "indep"
            v[n] = [draw(fl(lo, hi))] * size if kind == "const" else draw(arr(size, fl(lo, hi)))
    if e.fix:
        e.fix(v, cfg)
    return v


def load(p, e, cfg, v):
    for n, shape, units, _ in e.meta(cfg)[0]:
        if n in v:
            p.set_val(n, np.asarray(v[n], dtype=float).reshape(shape), units=units)


def own_unit(p, n, units):
    """The factor from the unit compute_totals takes derivatives with respect to, the source's, to the input's declared one."""
    src = p.model._resolver.source(n)
    u = p.model._var_allprocs_abs2meta["output"][src]["units"]
    return 1.0 if None in (u, units) else unit_conversion(units, u)[0]


@st.composite
def entry_case(draw, entries):
    i = draw(st.integers(0, len(entries) - 1)) if len(entries) <= 200 else 0
    e = entries[i]
    cfg = draw(e.strat_cfg())
    return dict(e=e.name, cfg=cfg, v=draw(values(e, cfg)))


ENTRIES = []


def add(family, cls, vec=False, name=None, opts=None, make=None, **kw):
    """opts: {option: strategy}; make(cfg): override of cls(**cfg)."""
    nm = name or cls.__name__
    f = make or (lambda c: cls(**c))
    ENTRIES.append(Entry(family, nm, f, cfg=opts or {}, vec=vec, **kw))


def family(*fams):
    return [e for e in ENTRIES if e.family in fams]


def by_name(n):
    return [e for e in ENTRIES if e.name == n][0]


pick = st.sampled_from

# ------------------------------------------------------------------ atmosphere
_alt = {"fltcond|h": (-300, 17500, "m")}
add("atmos", A1.PressureComp, True)
add("atmos", A2.TemperatureComp, True)
add("atmos", A3.TrueAirspeedComp, True)
add("atmos", A3.EquivalentAirspeedComp, True)
add("atmos", A4.MachNumberComp, True)
add("atmos", A6.SpeedOfSoundComp, True)
add("atmos", A7.DensityComp, True)
add("atmos", A8.DynamicPressureComp, True)
add("atmos", A5.ComputeAtmosphericProperties, True, opts=dict(true_airspeed_in=bools))

# ------------------------------------------------------------------ aerodynamics
_flap = dict(flap_chord_frac=fl(0.1, 0.4), wing_area_flapped_frac=fl(0.2, 1))
add("aero", AA.Lift, True)
add("aero", AA.PolarDrag, True, opts=dict(vec_CD0=bools))
add("aero", AA.StallSpeed)
add("aero", CLM.CleanCLmax, opts=dict(fudge_factor=fl(0.5, 1.5)))
add("aero", CLM.FlapCLmax, opts=dict(_flap, slat_chord_frac=pick([0.0, 0.05, 0.1, 0.2]), slat_span_frac=fl(0.2, 0.95), fudge_factor=fl(0.5, 1.5)))
add("aero", DJ.FlapDrag_JetTransport, opts=dict(_flap, Q_flap=fl(1, 1.5)))
add("aero", DJ.FuselageFormFactor_JetTransport, opts=dict(Q_fuselage=fl(1, 1.3)))
add("aero", DJ.SkinFrictionCoefficient_JetTransport, True, opts=dict(laminar_frac=pick([0.0, 0.3, 1.0])))
add("aero", DJ.WingFormFactor_JetTransport, opts=dict(Q=fl(1, 1.3)))
_q = dict(drag_fudge_factor=fl(0.9, 1.3), FF_nacelle=fl(1, 2), Q_flap=fl(1, 1.5), flap_chord_frac=fl(0.1, 0.4), wing_area_flapped_frac=fl(0, 1), configuration=pick(["clean", "takeoff"]))
add("aero", DJ.ParasiteDragCoefficient_JetTransport, True, opts=dict(_q, include_wing=bools, Q_fuselage=fl(1, 1.3), Q_tail=fl(1, 1.2), Q_wing=fl(1, 1.2), fuselage_laminar_frac=fl(0, 1), hstab_laminar_frac=fl(0, 1), vstab_laminar_frac=fl(0, 1), wing_laminar_frac=fl(0, 1), nacelle_laminar_frac=fl(0, 1)), nn=(1, 3))
add("aero", AE.ParasiteDragCoefficient_BWB, True, opts=dict(_q, nacelle_laminar_frac=fl(0, 1)), nn=(1, 3))


def _sections(v, cfg):
    """Spanwise stations increase from tip (most negative) to the root."""
    for k in v:
        if k.split(".")[-1] == "y_sec":
            n = len(v[k])
            gaps = np.abs(np.array(v[k])) + 0.6
            v[k] = (-np.cumsum(gaps)[::-1]).tolist()
            assert len(v[k]) == n
        if k.split(".")[-1] == "x_LE_sec":
            # exactly zero sweep is a kink of the (unsigned) average sweep
            v[k] = (np.array(v[k]) - 0.2137 * np.arange(len(v[k]))).tolist()


_sec = {"y_sec": (-6, 6, "m")}


@st.composite
def _secopts(draw):
    n = draw(st.integers(2, 5))
    a = draw(st.integers(0, n - 2))
    b = draw(st.integers(a + 1, n - 1))
    d = dict(num_sections=n)
    if draw(bools):
        d.update(idx_sec_start=a, idx_sec_end=b)
    return d


def addsec(fam, cls, extra=None, vec=False, **kw):
    mk = lambda c: cls(**dict({k: x for k, x in c.items() if k != "sec"}, **c["sec"]))  # noqa: E731
    add(fam, cls, vec, opts=dict(extra or {}, sec=_secopts()), make=mk, ranges=_sec, fix=_sections, **kw)


addsec("aero", WD.WaveDragFromSections, dict(specify_area_norm=bools, airfoil_tech_level=fl(0.87, 0.97)), vec=True)
addsec("geom", GE.WingAreaFromSections, dict(chord_frac_start=fl(0, 0.45), chord_frac_end=fl(0.5, 1)))
addsec("geom", GE.WingMACFromSections)
addsec("geom", GE.WingSweepFromSections)
add("geom", GE.CylinderSurfaceArea)
add("geom", GE.WingSpan)
add("geom", GE.WingAspectRatio)
add("geom", GE.WingMACTrapezoidal, ranges={"taper": (0.2, 1)})
add("geom", SB.HStabVolumeCoefficientSizing, opts=dict(C_ht=fl(0.5, 1.2)))
add("geom", SB.VStabVolumeCoefficientSizing, opts=dict(C_vt=fl(0.03, 0.12)))
_odd = pick([3, 4, 5])
add("geom", MG.TrapezoidalPlanformMesh, opts=dict(num_x=st.integers(1, 3), num_y=st.integers(1, 5)))


@st.composite
def _sec_mesh_opts(draw):
    ns = draw(st.integers(2, 4))
    return dict(num_sections=ns, num_y=draw(st.lists(st.integers(1, 4), min_size=ns - 1, max_size=ns - 1)) if draw(bools) else draw(st.integers(1, 4)))


add("geom", MG.SectionPlanformMesh, opts=dict(o=_sec_mesh_opts(), num_x=st.integers(1, 3), scale_area=bools), make=lambda c: MG.SectionPlanformMesh(num_x=c["num_x"], scale_area=c["scale_area"], **c["o"]), ranges=_sec, fix=_sections)
add("geom", MG.ThicknessChordRatioInterp, opts=dict(o=_sec_mesh_opts(), cos_spacing=bools), make=lambda c: MG.ThicknessChordRatioInterp(cos_spacing=c["cos_spacing"], **c["o"]))
add("geom", MG.SectionLinearInterp, opts=dict(o=_sec_mesh_opts(), cos_spacing=bools), make=lambda c: MG.SectionLinearInterp(cos_spacing=c["cos_spacing"], **c["o"]))

# ------------------------------------------------------------------ costs
_cost = dict(n_components=st.integers(0, 3), n_batteries=st.one_of(st.none(), st.integers(1, 2)), airframe_cost_per_kg=fl(50, 900), fuel_cost_per_kg=fl(0.1, 5), electricity_cost_per_MJ=fl(0.001, 0.2), aircraft_life_years=fl(3, 40), aircraft_daily_cycles=fl(1, 12), battery_replacement_cycles=fl(100, 5000), OEM_premium=fl(0.5, 2))
add("costs", CO.TurbopropOperatingCost, opts=_cost, ranges=dict(
    {"component_%d_weight" % i: (0, 500, "kg") for i in range(1, 4)}, **{"component_%d_NR_cost" % i: (0, 3e5, "USD") for i in range(1, 4)},
    **{"battery_%d_NR_cost" % i: (0, 3e5, "USD") for i in range(1, 4)}, **{"battery_%d_energy_used" % i: (0, 5e3, "MJ") for i in range(1, 4)}))

# ------------------------------------------------------------------ mission phase components
add("phase", PH.ClimbAngleComp, True)
add("phase", PH.FlipVectorComp, True, coupled=True, opts=dict(negative=bools, units=pick([None, "m"])))
add("phase", PH.Groundspeeds, True)
add("phase", PH.HorizontalAcceleration, True)
add("phase", PH.VerticalAcceleration, True)
add("phase", PH.SteadyFlightCL, True)
add("phase", PH.TakeoffTransition, opts=dict(h_obstacle=fl(5, 20), load_factor=fl(1.1, 1.5)))
add("phase", PH.TakeoffClimb, opts=dict(h_obstacle=fl(10.1, 20)))

# ------------------------------------------------------------------ weights
_n = dict(n_ult=fl(3, 6.5))
_ga = {"ac|weights|MTOW": (1500, 9000, "kg"), "ac|weights|W_fuel_max": (200, 2000, "kg"), "ac|weights|MLW": (1400, 8500, "kg"), "ac|geom|wing|S_ref": (10, 45, "m**2"), "ac|geom|fuselage|length": (6, 16, "m"), "ac|num_passengers_max": (3, 16, None), "ac|propulsion|engine|rating": (2e5, 1e6, "W")}
for _c in (WT.WingWeight_SmallTurboprop, WT.EmpennageWeight_SmallTurboprop, WT.FuselageWeight_SmallTurboprop, WT.NacelleWeight_SmallSingleTurboprop, WT.NacelleWeight_MultiTurboprop, WT.LandingGearWeight_SmallTurboprop):
    add("weights", _c, opts=_n, ranges=_ga)
add("weights", WT.FuelSystemWeight_SmallTurboprop, opts=dict(Kfsp=fl(4, 8)), ranges=_ga)
add("weights", WT.EquipmentWeight_SmallTurboprop, ranges=_ga)
add("weights", WT.SingleTurboPropEmptyWeight, ranges=_ga)
add("weights", WH.TwinSeriesHybridEmptyWeight, ranges=_ga)
add("weights", WB.CabinWeight_BWB)
add("weights", WB.AftbodyWeight_BWB)
_jn = dict(structural_fudge=fl(0.6, 1.6), total_fudge=fl(0.6, 1.6), wing_weight_multiplier=fl(0.5, 1.5), n_ult=fl(3, 5), n_land_ult=fl(3, 5.5), control_surface_area_frac=fl(0.05, 0.2), coeff_fc=fl(0.5, 1), coeff_avionics=fl(0.3, 0.8), APU_weight_frac=fl(0, 0.02))
add("weights", WE.BWBEmptyWeight, opts=dict(structural_fudge=fl(0.6, 1.6), total_fudge=fl(0.6, 1.6)))
add("weights", WE.JetTransportEmptyWeight, opts=_jn)
add("weights", WJ.WingWeight_JetTransport, opts=dict(n_ult=fl(3, 5), control_surface_area_frac=fl(0.05, 0.2)))
add("weights", WJ.HstabConst_JetTransport, opts=dict(fuselage_width_frac=fl(0.1, 1)))
add("weights", WJ.HstabWeight_JetTransport, opts=dict(n_ult=fl(3, 5), K_uht=pick([1.0, 1.143]), elevator_area_frac=fl(0.1, 0.4)))
add("weights", WJ.VstabWeight_JetTransport, opts=dict(n_ult=fl(3, 5), T_tail=bools))
add("weights", WJ.FuselageKws_JetTransport)
add("weights", WJ.FuselageWeight_JetTransport, opts=dict(n_ult=fl(3, 5), K_door=pick([1, 1.06]), K_lg=pick([1, 1.12])))
add("weights", WJ.MainLandingGearWeight_JetTransport, opts=dict(n_land_ult=fl(3, 5.5), kneeling_gear_parameter=pick([1.0, 1.126])))
add("weights", WJ.NoseLandingGearWeight_JetTransport, opts=dict(n_land_ult=fl(3, 5.5), kneeling_gear_parameter=pick([1.0, 1.15])))
add("weights", WJ.EngineWeight_JetTransport)
add("weights", WJ.EngineSystemsWeight_JetTransport)
add("weights", WJ.NacelleWeight_JetTransport)
add("weights", WJ.FurnishingWeight_JetTransport, opts=dict(K_lav=pick([0.31, 0.7, 1.11, 3.9]), K_buf=pick([1.02, 4.0, 5.68])))
add("weights", WJ.EquipmentWeight_JetTransport, opts=dict(coeff_fc=fl(0.5, 1), coeff_avionics=fl(0.3, 0.8), APU_weight_frac=fl(0, 0.02)))

# ------------------------------------------------------------------ propulsion
_w = dict(weight_inc=fl(0, 1e-3), weight_base=fl(0, 50), cost_inc=fl(0, 2), cost_base=fl(0, 1e4))
add("prop", PP.PropCoefficients, True, ranges={"fltcond|Utrue": (0, 250, "m/s"), "shaft_power_in": (0, 2e6, "W")})
add("prop", PP.ThrustCalc, True, ranges={"J": (0, 1), "eta_prop": (0, 0.95), "ct_over_cp": (0, 3), "cp": (0, 0.6)})
add("prop", PP.WeightCalc, opts=dict(num_blades=pick([3, 4])))
add("prop", PR.PowerSplit, True, opts=dict(_w, rule=pick(["fraction", "fixed"]), efficiency=fl(0.2, 1)))
add("prop", PR.SimpleGenerator, True, opts=dict(_w, efficiency=fl(0.2, 1)))
add("prop", PR.SimpleMotor, True, opts=dict(_w, efficiency=fl(0.2, 1)))
add("prop", PR.SimpleTurboshaft, True, opts=dict(_w, psfc=fl(5e-8, 2e-7)))


def _propfix(v, cfg):
    """Keep the operating point inside the propeller map: cp below about 0.45."""
    rho, n, D = np.array(v["fltcond|rho"]), np.array(v["rpm"]) / 60, v["diameter"][0]
    lim = 0.42 * rho * n ** 3 * D ** 5
    v["shaft_power_in"] = (lim * np.clip(np.array(v["shaft_power_in"]) / 2e6, 0.02, 1)).tolist()


add("prop", PR.SimplePropeller, True, opts=dict(num_blades=pick([3, 4]), design_cp=fl(0.1, 0.3), design_J=fl(1.2, 2.5)), fix=_propfix,
    pre=lambda m, c: (m.set_input_defaults("rpm", np.full(c["num_nodes"], 2000.0), units="rpm"), m.set_input_defaults("diameter", 2.5, units="m"), m.set_input_defaults("fltcond|rho", np.ones(c["num_nodes"]), units="kg/m**3")))
add("prop", PM.ConstantPropEfficiency, True, make=lambda c: PM.ConstantPropEfficiency(vec_size=c["num_nodes"]), ranges={"cp": (0.02, 0.5), "J": (0.1, 2)})

# ------------------------------------------------------------------ batteries
_b = dict(efficiency=fl(0.3, 1), specific_power=fl(1000, 8000), cost_inc=fl(1, 200), cost_base=fl(0, 1e4))
add("storage", BA.SimpleBattery, True, opts=_b)
add("storage", BA.SOCBattery, "simpson", opts=_b, coupled=("SOC",))
add("storage", HS.PressureVesselWallThickness, opts=dict(safety_factor=fl(0.5, 4), yield_stress=fl(2e8, 6e8), density=fl(2000, 3000)))
add("storage", HS.VacuumWallThickness, opts=dict(safety_factor=fl(0.5, 4), stiffening_multiplier=fl(0.3, 1.5), youngs_modulus=fl(6e10, 2e11), density=fl(2000, 3000)))
add("storage", HS.MLIWeight, opts=dict(foil_layer_areal_weight=fl(0.01, 0.03), spacer_layer_areal_weight=fl(0.005, 0.02)))
add("storage", HS.VacuumTankWeight, name="VacuumTankWeight_sphere", opts=dict(weight_fudge_factor=fl(0.5, 2)), ranges={"length": (0, 1e-9, "m")})
add("storage", HS.VacuumTankWeight, opts=dict(weight_fudge_factor=fl(0.5, 2)), ranges={"length": (0, 6, "m")})
add("storage", HT.InitialLH2MassModification, True, opts=dict(fill_level_init=fl(0.1, 1), LH2_density=fl(60, 75)), ranges={"length": (0, 6, "m"), "delta_m_liq": (-60, 20, "kg")})
add("storage", HT.LH2TankNoBoilOff, "simpson", opts=dict(fill_level_init=fl(0.4, 1)), coupled=True, ranges={"length": (0.3, 6, "m"), "radius": (0.6, 3, "m")})

# ------------------------------------------------------------------ thermal
add("thermal", MC.MotorCoolingJacket, True, opts=dict(case_cooling_coefficient=fl(500, 2000), motor_specific_heat=fl(500, 1200), case_area_coefficient=fl(3e5, 9e5), coolant_specific_heat=fl(2000, 4500)))
add("thermal", BC.BandolierCoolingSystem, True, opts=dict(coolant_specific_heat=fl(2000, 4500), fluid_k=fl(0.2, 0.7), nusselt=fl(4, 9), cell_kr=fl(0.2, 0.6), battery_weight_fraction=fl(0.5, 0.9)))
_hx = dict()
add("hx", HX.OffsetStripFinGeometry)
add("hx", HX.OffsetStripFinData, True)
add("hx", HX.HydraulicDiameterReynoldsNumber, True)
add("hx", HX.NusseltFromColburnJ, True)
add("hx", HX.ConvectiveCoefficient, True)
add("hx", HX.FinEfficiency, True)
add("hx", HX.UAOverall, True, opts=dict(fouling_factor_cold=pick([0.0, 1e-4, 1e-3]), fouling_factor_hot=pick([0.0, 2e-4, 5e-4])))
add("hx", HX.NTUMethod, True)
add("hx", HX.CrossFlowNTUEffectiveness, True)
add("hx", HX.NTUEffectivenessActualHeatTransfer, True)
add("hx", HX.OutletTemperatures, True)
add("hx", HX.PressureDrop, True, opts=dict(Kc_cold=fl(0, 0.5), Ke_cold=fl(-0.3, 0.3), Kc_hot=fl(0, 0.5), Ke_hot=fl(-0.3, 0.3)))
_nl = lambda m: None  # noqa: E731
add("hx", HX.HXGroup, True, nn=(1, 3))

for _c in (DU.TemperatureIsentropic, DU.TotalTemperatureIsentropic, DU.PressureIsentropic, DU.TotalPressureIsentropic, DU.DuctExitMachNumber):
    add("duct", _c, True, opts=dict(gamma=pick([1.4, 1.33, 1.38])))
add("duct", DU.SpeedOfSound, True, opts=dict(gamma=pick([1.4, 1.33]), R=fl(280, 290)))
add("duct", DU.DensityIdealGas, True, opts=dict(R=fl(280, 290)))
add("duct", DU.MachNumberfromSpeed, True)
add("duct", DU.MassFlow, True)
add("duct", DU.HeatAdditionPressureLoss, True)
add("duct", DU.NozzlePressureLoss, True)
add("duct", DU.NetForce, True, opts=dict(cfg=fl(0.9, 1)), make=lambda c: DU.NetForce(**c))
add("duct", DU.ExplicitIncompressibleDuct, True, opts=dict(static_pressure_loss_factor=fl(0, 0.5), gross_thrust_factor=fl(0.9, 1)))
add("duct", DU.Inlet, True)

add("thermal", TT.PerfectHeatTransferComp, True, opts=dict(specific_heat=fl(1000, 4500)))
add("thermal", TT.ThermalComponentWithMass, True, opts=dict(specific_heat=fl(400, 1200)))
add("thermal", TT.ConstantSurfaceTemperatureColdPlate_NTU, True, opts=dict(fluid_rho=fl(800, 1100), fluid_k=fl(0.1, 0.6), nusselt=fl(4, 9), specific_heat=fl(1500, 4300)))
add("thermal", TT.CoolantReservoirRate, True)
add("thermal", HO.SimpleHose, True, coupled=("component_weight",), opts=dict(hose_operating_stress=fl(1e6, 4e6), hose_density=fl(900, 1800)))
add("thermal", PU.SimplePump, True, opts=dict(efficiency=fl(0.2, 0.9), weight_base=fl(0, 10), weight_inc=fl(1e-3, 1 / 300)), ranges={"power_rating": (500, 3e4, "W")})
add("thermal", HP.AmmoniaProperties, True)
add("thermal", HP.HeatPipeThermalResistance, True, opts=dict(length_evap=fl(0.1, 1), length_cond=fl(0.1, 1), wall_conduct=fl(50, 300), wick_thickness=pick([0.0, 5e-4, 1e-3]), wick_conduct=fl(1, 8), vapor_resistance=bools), ranges={"q": (100, 2e4, "W")})
add("thermal", HP.HeatPipeVaporTempDrop, True, ranges={"q": (100, 2e4, "W")})
add("thermal", HP.HeatPipeWeight, opts=dict(yield_stress=fl(200, 900), rho_wall=fl(2000, 8000), stress_safety_factor=fl(1.5, 5)))
add("thermal", HP.QMaxAnalyticalPart, True, opts=dict(theta=fl(-30, 60)))
add("thermal", HP.QMaxHeatPipe, True, opts=dict(theta=fl(-30, 60)), ranges={"temp": (-40, 85, "degC")})
add("thermal", HP.QMaxWarning, True, warn_only=True, ranges={"q": (10, 3e4, "W")})
add("thermal", CH.COPHeatPump, True, ranges={"power_rating": (100, 5e4, "W")})
add("thermal", CH.HeatPumpWeight, ranges={"power_rating": (100, 5e4, "W")})
add("thermal", CH.COPExplicit, True)
add("thermal", CH.LinearSelector, True)
add("thermal", MF.FlowSplit, True)
add("thermal", MF.FlowCombine, True)

# ------------------------------------------------------------------ utilities
_gen = {k: (-4, 4) for k in "abcde"}


def _asub(c):
    comp = UT.AddSubtractComp()
    comp.add_equation("y", ["a", "b", "c"], vec_size=[c["num_nodes"], 1, c["num_nodes"]], scaling_factors=c["s"])
    comp.add_equation("z", ["d", "e"], vec_size=[c["num_nodes"], 1], scaling_factors=[1.0, -2.0])
    return comp


add("util", UT.AddSubtractComp, True, opts=dict(s=arr(3, fl(-3, 3))), make=_asub, ranges=_gen)


def _muld(c):
    comp = UT.ElementMultiplyDivideComp()
    comp.add_equation("y", ["a", "b", "c"], vec_size=[c["num_nodes"], 1, c["num_nodes"]], scaling_factor=c["s"], divide=c["d"])
    comp.add_equation("z", ["d", "e"], vec_size=[c["num_nodes"], 1], divide=[True, False])
    return comp


add("util", UT.ElementMultiplyDivideComp, True, opts=dict(s=fl(0.3, 3), d=arr(3, bools)), make=_muld, ranges={k: (0.4, 4) for k in "abcde"})
def _distinct(v, cfg):
    """No ties: the extremum is not differentiable there."""
    v["array"] = (np.array(v["array"]) + 0.0137 * np.arange(len(v["array"]))).tolist()


add("util", UT.MaxComp, fix=_distinct, make=lambda c: UT.MaxComp(num_nodes=c["n"]), opts=dict(n=tail(1, 6, 30)), ranges={"array": (-5, 5)})
add("util", UT.MinComp, fix=_distinct, make=lambda c: UT.MinComp(num_nodes=c["n"]), opts=dict(n=tail(1, 6, 30)), ranges={"array": (-5, 5)})
add("util", UT.FirstDerivative, make=lambda c: UT.FirstDerivative(num_intervals=c["ni"], order=c["order"]), opts=dict(ni=tail(2, 5, 20), order=pick([2, 4])), ranges={"q": (-5, 5), "dt": (0.3, 40)})
add("util", UT.FirstDerivative, name="FirstDerivative_segments", make=lambda c: UT.FirstDerivative(num_intervals=c["ni"], order=c["order"], segment_names=["climb", "b", "c", "climb2"][:c["segs"]], **c["un"]),
    opts=dict(ni=tail(2, 4, 12), order=pick([2, 4]), segs=st.integers(1, 4), un=pick([{}, {"quantity_units": "m", "diff_units": "s"}])), ranges={"q": (-5, 5), "climb|dt": (0.3, 40), "b|dt": (0.3, 40), "c|dt": (0.3, 40), "climb2|dt": (0.3, 40)})
add("util", SE.SelectorComp, True, make=lambda c: SE.SelectorComp(num_nodes=c["num_nodes"], input_names=["a", "b", "c"]), ranges=dict(_gen, selector=(-0.45, 2.45)), skip=(), keep=("selector",))
add("util", LI.LinearInterpolator, True, coupled=True, opts=dict(units=pick([None, "m"])), ranges={"start_val": (-10, 10), "end_val": (-10, 10)})


def _integ(c):
    comp = IN.Integrator(num_nodes=2 * c["ni"] + 1, method=c["method"], diff_units="s", time_setup=c["ts"])
    comp.add_integrand("q", rate_name="dq", units="m", start_name="q0", end_name="qf", start_val=0.0)
    comp.add_integrand("w", rate_name="dw", units="kg", zero_start=True, final_only=c["fo"])
    return comp


add("util", IN.Integrator, opts=dict(ni=tail(2, 4, 15), method=pick(["simpson", "bdf3"]), ts=pick(["dt", "duration", "bounds"]), fo=bools), make=_integ, coupled=True,
    ranges={"dq": (-4, 4), "dw": (-4, 4), "q0": (-10, 10), "dt": (0.2, 30), "duration": (5, 500), "t_initial": (0, 50), "t_final": (100, 500), "q_initial": (-10, 10), "w_initial": (-10, 10)})


def _oldint(c):
    return IN.OldIntegrator(num_nodes=2 * c["ni"] + 1, method=c["method"], zero_start=c["z"], final_only=c["fo"], time_setup="dt" if c["segs"] else c["ts"], segment_names=["s1", "s2"] if c["segs"] else None)


add("util", IN.OldIntegrator, opts=dict(ni=tail(2, 3, 10), method=pick(["simpson", "bdf3"]), z=bools, fo=bools, ts=pick(["dt", "duration", "bounds"]), segs=bools), make=_oldint, coupled=True,
    ranges={"dqdt": (-4, 4), "q_initial": (-10, 10), "dt": (0.2, 30), "duration": (5, 500), "t_initial": (0, 50), "t_final": (100, 500), "s1|dt": (0.2, 30), "s2|dt": (0.2, 30)})


def _cat(c):
    comp = UT.VectorConcatenateComp()
    comp.add_relation("y", ["a", "b", "c"], vec_sizes=c["sizes"], length=c["length"], units=None)
    return comp


def _split(c):
    comp = UT.VectorSplitComp()
    comp.add_relation(["a", "b", "c"], "y", vec_sizes=c["sizes"], length=c["length"], units=None)
    return comp


_cs = dict(sizes=arr(3, tail(1, 3, 9)), length=st.integers(1, 3))
add("util", UT.VectorConcatenateComp, opts=_cs, make=_cat, ranges=_gen)
add("util", UT.VectorSplitComp, opts=_cs, make=_split, ranges={"y": (-4, 4)})
add("util", UT.DVLabel, opts=dict(n=st.integers(1, 3)), make=lambda c: UT.DVLabel([["a", "alabel", np.ones(c["n"]), "m"], ["b", "blabel", 2.0, None]]), ranges=_gen)

# ------------------------------------------------------------------ implicit components and solved groups
from .solve import newton  # noqa: E402


def _sizes(m, c, names):
    for k, vec_, val, u in names:
        m.set_input_defaults(k, val=np.full(c["num_nodes"], val) if vec_ else val, units=u)


def _machfix(v, cfg):
    """Subsonic branch: mass flow at most 80 percent of the choked one."""
    mm = 0.57 * np.array(v["rho"]) * np.array(v["a"]) * np.array(v["area"])
    lo, hi = R["mdot"][:2]
    v["mdot"] = (mm * (0.05 + 0.75 * (np.array(v["mdot"]) - lo) / (hi - lo))).tolist()


def _pefix(v, cfg):
    v["p_exit"] = (np.array(v["pt"]) * np.clip(0.55 + 0.44 * (np.array(v["p_exit"]) - 2e4) / 8e4, 0.55, 0.99)).tolist()


add("implicit", DU.MachNumberDuct, True, fix=_machfix, solver=newton())
add("implicit", DU.DuctExitPressureRatioImplicit, True, fix=_pefix, solver=newton())
add("solved", MC.LiquidCooledMotor, True, name="LiquidCooledMotor_steady", opts=dict(q=st.just(True)), make=lambda c: MC.LiquidCooledMotor(num_nodes=c["num_nodes"], quasi_steady=True), solver=newton(), ranges={"q_in": (1e3, 2e4)}, nn=(1, 3), skip=("rhs:T",))
add("solved", BC.LiquidCooledBattery, True, name="LiquidCooledBattery_steady", opts=dict(q=st.just(True)), make=lambda c: BC.LiquidCooledBattery(num_nodes=c["num_nodes"], quasi_steady=True), solver=newton(), ranges={"q_in": (1e3, 2e4)}, nn=(1, 3), skip=("rhs:T",))
add("solved", TT.LiquidCooledComp, True, name="LiquidCooledComp_steady", opts=dict(q=st.just(True)), make=lambda c: TT.LiquidCooledComp(num_nodes=c["num_nodes"], quasi_steady=True), solver=newton(), ranges={"q_in": (1e3, 2e4), "mdot_coolant": (0.2, 4, "kg/s")}, nn=(1, 3), skip=("rhs:T",))


def _stafix(v, cfg):
    n = len(v["Tt_in"])
    ar = 0.05 + np.array(v["area"]).mean() * 0.6
    v["area"] = [ar] * len(v["area"])
    Tt, pt = np.array(v["Tt_in"]), np.array(v["pt_in"])
    flow = 0.5 * pt / np.sqrt(Tt) * ar * 0.0404
    lo, hi = R["mdot"][:2]
    m = flow * (0.1 + 0.7 * (np.array(v["mdot"]) - lo) / (hi - lo))
    v["mdot"] = m.tolist()
    v["heat_in"] = (m * 1000 * (np.array(v["heat_in"]) % 29.0)).tolist()
    v["delta_p"] = (-0.02 * pt * (np.array(v["delta_p"]) / 9e4)).tolist()
    assert n


_duct_ls = lambda m: newton(maxiter=60)(m)  # noqa: E731
add("solved", DU.DuctStation, True, fix=_stafix, solver=_duct_ls, ranges={"cp": (950, 1050, "J/kg/degK")}, nn=(1, 3), guess={"M": 0.3})


def _nozfix(v, cfg):
    pt, Tt = np.array(v["pt_in"]), np.array(v["Tt"])
    v["p_exit"] = (pt * np.clip(0.6 + 0.38 * (np.array(v["p_exit"]) - 2e4) / 8e4, 0.6, 0.98)).tolist()
    ar = np.array(v["area"]).mean() * 0.3 + 0.02
    v["area"] = [ar] * len(v["area"])
    lo, hi = R["mdot"][:2]
    v["mdot"] = (0.2 * pt / np.sqrt(Tt) * ar * 0.0404 * (0.1 + 0.7 * (np.array(v["mdot"]) - lo) / (hi - lo))).tolist()


add("solved", DU.OutletNozzle, True, fix=_nozfix, solver=_duct_ls, nn=(1, 3))
add("solved", HP.HeatPipe, True, opts=dict(length_evap=fl(0.1, 1), wick_thickness=pick([0.0, 5e-4]), theta=fl(-10, 40)), nn=(1, 3), ranges={"T_evap": (0, 70, "degC"), "q": (100, 4000, "W"), "length": (1, 12, "m"), "inner_diam": (0.01, 0.03, "m"), "n_pipes": (1, 10), "T_design": (30, 90, "degC")},
    pre=lambda m, c: _sizes(m, c, [("T_evap", 1, 20.0, "degC"), ("q", 1, 100.0, "W"), ("n_pipes", 0, 1.0, None), ("length", 0, 1.0, "m"), ("inner_diam", 0, 0.02, "m"), ("T_design", 0, 40.0, "degC")]))
add("solved", CH.HeatPumpWithIntegratedCoolantLoop, True, opts=dict(nonlinear_bypass_control=st.just(True)), nn=(1, 3), solver=newton(), ranges={"power_rating": (100, 2e4, "W"), "T_in_hot": (311, 340, "degK"), "T_in_cold": (280, 309, "degK"), "mdot_coolant": (1, 5, "kg/s"), "bypass": (0.05, 0.95)},
    pre=lambda m, c: _sizes(m, c, [("mdot_coolant", 1, 1.0, "kg/s"), ("power_rating", 0, 1000.0, "W"), ("T_in_hot", 1, 330.0, "K"), ("T_in_cold", 1, 300.0, "K")]))
add("solved", MC.LiquidCooledMotor, "simpson", opts=dict(quasi_steady=st.just(False)), coupled=True, solver=newton())
add("solved", BC.LiquidCooledBattery, "simpson", opts=dict(quasi_steady=st.just(False)), coupled=True, solver=newton())
add("solved", TT.CoolantReservoir, "simpson", coupled=True, solver=newton())
add("solved", TT.LiquidCooledComp, "simpson", opts=dict(quasi_steady=st.just(False), specific_heat_object=fl(500, 1200)), coupled=True, solver=newton())

# implicit components on their own: outputs (states) are drawn as well, the residual is differentiated
add("residual", PH.BFLImplicitSolve, states={"takeoff|v1": (25, 70, "m/s")})
add("residual", PH.BFLImplicitSolve, name="BFLImplicitSolve_near_rotation", states={"takeoff|v1": (50, 50.01, "m/s")}, ranges={"takeoff|vr": (49.85, 50.15, "m/s")})
add("residual", DU.MachNumberDuct, True, name="MachNumberDuct_residual", states={"M": (0.05, 0.9)})
add("residual", DU.DuctExitPressureRatioImplicit, True, name="DuctExitPressureRatioImplicit_residual", states={"nozzle_pressure_ratio": (0.55, 0.98)})
add("residual", DU.FlowMatcher, True, states={"mdot": (0.05, 4)})
add("residual", TT.ThermalComponentMassless, True, states={"T_object": (250, 400)})
