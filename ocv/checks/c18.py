"""C18: empty-weight buildups."""
import numpy as np
from hypothesis import strategies as st

from ..core import sub, need, Violation
from ..lib import fl, logfl, bools, gv, close, build, setv
from openconcept import weights as W

PI = np.pi
UNITS = {"lb": [("lb", 1.0), ("kg", 1 / 0.45359237)], "ft**2": [("ft**2", 1.0), ("m**2", 1 / 0.3048**2)], "ft": [("ft", 1.0), ("m", 1 / 0.3048), ("inch", 1 / 12)], "inch": [("inch", 1.0), ("m", 1 / 0.0254), ("ft", 12.0)],
         "rad": [("rad", 1.0), ("deg", PI / 180)], "kn": [("kn", 1.0), ("m/s", 3600 / 1852)], "psi": [("psi", 1.0)], "lbf": [("lbf", 1.0), ("N", 1 / 4.4482216152605)], "hp": [("hp", 1.0), ("kW", 1 / 0.745699871582)],
         "ft**3": [("ft**3", 1.0), ("m**3", 1 / 0.3048**3)], "lb*ft**-2": [("lb*ft**-2", 1.0)], None: [(None, 1.0)]}
RT = 2e-6  # OpenMDAO's unit constants

# name -> (unit of the regression, range in that unit)
JET = {
    "ac|num_passengers_max": (None, fl(4, 600)), "ac|num_flight_deck_crew": (None, fl(1, 4)), "ac|num_cabin_crew": (None, fl(0, 20)), "ac|cabin_pressure": ("psi", fl(0, 12)), "ac|aero|Mach_max": (None, fl(0.3, 0.95)),
    "ac|aero|Vstall_land": ("kn", fl(60, 160)), "ac|geom|wing|S_ref": ("ft**2", logfl(150, 6000)), "ac|geom|wing|AR": (None, fl(3, 18)), "ac|geom|wing|c4sweep": ("rad", fl(0, 0.8)), "ac|geom|wing|taper": (None, fl(0.1, 1)),
    "ac|geom|wing|toverc": (None, fl(0.06, 0.2)), "ac|geom|hstab|S_ref": ("ft**2", logfl(30, 1500)), "ac|geom|hstab|AR": (None, fl(2, 8)), "ac|geom|hstab|c4sweep": ("rad", fl(0, 0.8)),
    "ac|geom|hstab|c4_to_wing_c4": ("ft", logfl(10, 150)), "ac|geom|vstab|S_ref": ("ft**2", logfl(20, 900)), "ac|geom|vstab|AR": (None, fl(0.8, 4)), "ac|geom|vstab|c4sweep": ("rad", fl(0, 0.8)),
    "ac|geom|vstab|toverc": (None, fl(0.06, 0.2)), "ac|geom|vstab|c4_to_wing_c4": ("ft", logfl(10, 150)), "ac|geom|fuselage|height": ("ft", logfl(4, 28)), "ac|geom|fuselage|length": ("ft", logfl(20, 280)),
    "ac|geom|fuselage|S_wet": ("ft**2", logfl(200, 2e4)), "ac|geom|maingear|length": ("inch", logfl(20, 200)), "ac|geom|maingear|num_wheels": (None, fl(2, 20)), "ac|geom|maingear|num_shock_struts": (None, fl(1, 5)),
    "ac|geom|nosegear|length": ("inch", logfl(20, 160)), "ac|geom|nosegear|num_wheels": (None, fl(1, 4)), "ac|propulsion|engine|rating": ("lbf", logfl(1e3, 1.2e5)), "ac|propulsion|num_engines": (None, fl(1, 4)),
    "ac|weights|MTOW": ("lb", logfl(8e3, 1.3e6)), "ac|weights|MLW": ("lb", logfl(7e3, 1e6)), "ac|weights|W_fuel_max": ("lb", logfl(500, 5e5)),
}
BWBX = {"ac|geom|centerbody|S_cabin": ("ft**2", logfl(500, 1e4)), "ac|geom|centerbody|S_aftbody": ("ft**2", logfl(200, 5e3)), "ac|geom|centerbody|taper_aftbody": (None, fl(0.2, 1.5)), "ac|geom|V_pressurized": ("ft**3", logfl(2e3, 1e5))}
BWB = {k: v for k, v in JET.items() if "stab|" not in k and "fuselage" not in k}
BWB.update(BWBX)
TP = {
    "ac|weights|MTOW": ("lb", logfl(2e3, 2e4)), "ac|weights|W_fuel_max": ("lb", logfl(100, 8e3)), "ac|weights|MLW": ("lb", logfl(2e3, 2e4)), "ac|geom|wing|S_ref": ("ft**2", logfl(100, 600)), "ac|geom|wing|AR": (None, fl(4, 16)),
    "ac|geom|wing|c4sweep": ("rad", fl(0, 0.6)), "ac|geom|wing|taper": (None, fl(0.2, 1)), "ac|geom|wing|toverc": (None, fl(0.08, 0.22)), "ac|q_cruise": ("lb*ft**-2", logfl(20, 300)), "ac|geom|hstab|S_ref": ("ft**2", logfl(15, 150)),
    "ac|geom|vstab|S_ref": ("ft**2", logfl(10, 120)), "ac|geom|hstab|c4_to_wing_c4": ("ft", logfl(8, 40)), "ac|geom|fuselage|length": ("ft", logfl(15, 60)), "ac|geom|fuselage|height": ("ft", logfl(3, 9)),
    "ac|geom|fuselage|width": ("ft", logfl(3, 9)), "ac|geom|fuselage|S_wet": ("ft**2", logfl(150, 1500)), "P_TO": ("hp", logfl(100, 3000)), "ac|geom|maingear|length": ("ft", logfl(1, 8)), "ac|geom|nosegear|length": ("ft", logfl(1, 8)),
    "ac|num_passengers_max": (None, fl(1, 19)), "W_engine": ("lb", logfl(100, 1500)), "W_propeller": ("lb", logfl(20, 600)),
}
HYB = dict(TP, W_motors=("lb", logfl(20, 800)), W_generator=("lb", logfl(20, 800)))

JOPT = {
    "structural_fudge": fl(0.7, 2), "total_fudge": fl(0.7, 1.6), "wing_weight_multiplier": fl(0.6, 2), "n_ult": fl(2, 7), "n_land_ult": fl(2, 7), "control_surface_area_frac": fl(0.03, 0.4), "kneeling_main_gear_parameter": fl(0.9, 1.3),
    "kneeling_nose_gear_parameter": fl(0.9, 1.3), "K_lav": fl(0.2, 1.4), "K_buf": fl(1, 6), "coeff_fc": fl(0.3, 1), "coeff_avionics": fl(0.2, 1.2), "APU_weight_frac": fl(0, 0.02),
}
JDEF = dict(structural_fudge=1.2, total_fudge=1.15, wing_weight_multiplier=1.0, n_ult=3.75, n_land_ult=4.2, control_surface_area_frac=0.1, kneeling_main_gear_parameter=1.0, kneeling_nose_gear_parameter=1.0, K_lav=0.7, K_buf=4.0,
            coeff_fc=0.768, coeff_avionics=0.5, APU_weight_frac=0.0085, fuselage_width_frac=0.5, K_uht=1.0, elevator_area_frac=0.2, T_tail=False, K_door=1, K_lg=1, cabin_length_frac=0.75)
JX = {"fuselage_width_frac": fl(0.1, 1), "K_uht": fl(0.9, 1.3), "elevator_area_frac": fl(0.05, 0.5), "T_tail": bools, "K_door": fl(1, 1.3), "K_lg": fl(1, 1.2), "cabin_length_frac": fl(0.3, 1)}
BDEF = dict(JDEF, structural_fudge=1.0, total_fudge=1.0)


def common(v, o):
    """Component laws shared by the jet transport and the BWB: Raymer 1992 ch. 15, Roskam V, FLOPS."""
    M, L, n = v["ac|weights|MTOW"], v["ac|weights|MLW"], v["ac|propulsion|num_engines"]
    T, px = v["ac|propulsion|engine|rating"], v["ac|num_passengers_max"]
    fd, cc, S = v["ac|num_flight_deck_crew"], v["ac|num_cabin_crew"], v["ac|geom|wing|S_ref"]
    r = {}
    r["W_wing"] = 0.0051 * (M * o["n_ult"]) ** 0.557 * S**0.649 * v["ac|geom|wing|AR"] ** 0.5 / v["ac|geom|wing|toverc"] ** 0.4 * (1 + v["ac|geom|wing|taper"]) ** 0.1 / np.cos(v["ac|geom|wing|c4sweep"]) * (
        o["control_surface_area_frac"] * S) ** 0.1
    r["W_mlg"] = 0.0106 * o["kneeling_main_gear_parameter"] * L**0.888 * o["n_land_ult"] ** 0.25 * v["ac|geom|maingear|length"] ** 0.4 * v["ac|geom|maingear|num_wheels"] ** 0.321 / v[
        "ac|geom|maingear|num_shock_struts"] ** 0.5 * v["ac|aero|Vstall_land"] ** 0.1
    r["W_nlg"] = 0.032 * o["kneeling_nose_gear_parameter"] * L**0.646 * o["n_land_ult"] ** 0.2 * v["ac|geom|nosegear|length"] ** 0.5 * v["ac|geom|nosegear|num_wheels"] ** 0.45
    We = T / 5.5
    r["W_engines"] = We * n
    r["W_thrust_rev"] = 0.034 * T * n
    r["W_eng_control"] = 0.26 * n * T**0.5
    r["W_fuelsystem"] = 1.07 * v["ac|weights|W_fuel_max"] ** 0.58 * n**0.43 * v["ac|aero|Mach_max"] ** 0.34
    r["W_eng_start"] = 9.33 * (We / 1000) ** 1.078 * n
    r["W_nacelle"] = 0.065 * T * n
    r["W_furnishings"] = 55 * fd + 32 * px + 15 * cc + o["K_lav"] * px**1.33 + o["K_buf"] * px**1.12 + 109 * (px * (1 + v["ac|cabin_pressure"]) / 100) ** 0.505 + 0.771 * M / 1000
    r["W_flight_controls"] = o["coeff_fc"] * M ** (2 / 3)
    r["W_avionics"] = o["coeff_avionics"] * (fd * (15 + 0.032 * M / 1000) + n * (5 + 0.006 * M / 1000) + 0.15 * M / 1000 + 0.012 * M)
    r["W_electrical"] = 1163 * ((r["W_fuelsystem"] + r["W_avionics"]) / 1000) ** 0.506
    people = fd + cc + px
    vol = v.get("ac|geom|V_pressurized")
    if vol is None:
        vol = PI / 4 * v["ac|geom|fuselage|height"] ** 2 * v["ac|geom|fuselage|length"] * o["cabin_length_frac"]
    r["W_ac_pressurize_antiice"] = 469 * (vol * people / 1e4) ** 0.419
    r["W_oxygen"] = 7 * people**0.702
    r["W_APU"] = o["APU_weight_frac"] * M
    return r


def total(r, o, structure):
    r["W_structure"] = o["structural_fudge"] * (sum(r[k] for k in structure if k != "W_wing") + o["wing_weight_multiplier"] * r["W_wing"])
    r["OEW"] = o["total_fudge"] * sum(v for k, v in r.items() if k not in structure)
    return r


def jet(v, o):
    r = common(v, o)
    M = v["ac|weights|MTOW"]
    Lf, D = v["ac|geom|fuselage|length"], v["ac|geom|fuselage|height"]
    Lt, Sh, Ah = v["ac|geom|hstab|c4_to_wing_c4"], v["ac|geom|hstab|S_ref"], v["ac|geom|hstab|AR"]
    FwBh = o["fuselage_width_frac"] * D / np.sqrt(Sh * Ah)
    r["W_hstab"] = 0.0379 * o["K_uht"] * (1 + FwBh) ** -0.25 * M**0.639 * o["n_ult"] ** 0.1 * Sh**0.75 / Lt * (0.3 * Lt) ** 0.704 / np.cos(v["ac|geom|hstab|c4sweep"]) * Ah**0.166 * (1 + o["elevator_area_frac"]) ** 0.1
    Lv = v["ac|geom|vstab|c4_to_wing_c4"]
    r["W_vstab"] = 0.0026 * (2.0 if o["T_tail"] else 1.0) ** 0.225 * M**0.556 * o["n_ult"] ** 0.536 / Lv**0.5 * v["ac|geom|vstab|S_ref"] ** 0.5 * Lv**0.875 / np.cos(v["ac|geom|vstab|c4sweep"]) * v["ac|geom|vstab|AR"] ** 0.35 / v[
        "ac|geom|vstab|toverc"] ** 0.5
    t = v["ac|geom|wing|taper"]
    Kws = 0.75 * ((1 + 2 * t) / (1 + t)) * np.sqrt(v["ac|geom|wing|S_ref"] * v["ac|geom|wing|AR"]) * np.tan(v["ac|geom|wing|c4sweep"]) / Lf
    r["W_fuselage"] = 0.328 * o["K_door"] * o["K_lg"] * (M * o["n_ult"]) ** 0.5 * Lf**0.25 * v["ac|geom|fuselage|S_wet"] ** 0.302 * (1 + Kws) ** 0.04 * (Lf / D) ** 0.1
    return total(r, o, ["W_wing", "W_hstab", "W_vstab", "W_fuselage", "W_mlg", "W_nlg", "W_nacelle"])


def bwb(v, o):
    r = common(v, o)
    M = v["ac|weights|MTOW"]
    r["W_cabin"] = 1.803246 * M**0.166552 * v["ac|geom|centerbody|S_cabin"] ** 1.061158
    r["W_aftbody"] = (1 + 0.05 * v["ac|propulsion|num_engines"]) * 0.53 * v["ac|geom|centerbody|S_aftbody"] * M**0.2 * (v["ac|geom|centerbody|taper_aftbody"] + 0.5)
    return total(r, o, ["W_wing", "W_cabin", "W_aftbody", "W_mlg", "W_nlg", "W_nacelle"])


def draw_inputs(draw, table, k):
    """k sets of values in the regression's units plus the unit each is handed over in."""
    units = {n: draw(st.integers(0, len(UNITS[u]) - 1)) for n, (u, _) in table.items()}
    return units, [{n: draw(s) for n, (_, s) in table.items()} for _ in range(k)]


def feed(p, table, units, vals, names=None):
    setv(p, {n: (vals[n] / UNITS[u][units[n]][1], UNITS[u][units[n]][0]) if u else vals[n] for n, (u, _) in table.items() if names is None or n in names})


@st.composite
def case(draw, table, opt):
    units, sets = draw_inputs(draw, table, draw(st.integers(1, 2)))
    full = draw(bools)
    return dict(units=units, sets=sets, opts={k: draw(s) for k, s in opt.items() if full or draw(st.integers(0, 2)) == 0})


def buildup(c, ctx, cls, table, defaults, model):
    o = dict(defaults, **c["opts"])
    p = build(cls(**c["opts"]))
    for v in c["sets"]:
        feed(p, table, c["units"], v)
        p.run_model()
        for k, w in model(v, o).items():
            close(gv(p, k, "lb"), w, RT, 0, "%s of %s" % (k, cls.__name__))
    if c["opts"]:
        ctx.ok("sets=%d" % len(c["sets"]))


@sub("C18", "jet_transport", case(JET, dict(JOPT, **JX)), quick=800, thorough=20000, shards=4, rule="at least one option away from its default")
def t_jet(c, ctx):
    buildup(c, ctx, W.JetTransportEmptyWeight, JET, JDEF, jet)


@sub("C18", "bwb", case(BWB, JOPT), quick=800, thorough=20000, shards=4, rule="at least one option away from its default")
def t_bwb(c, ctx):
    buildup(c, ctx, W.BWBEmptyWeight, BWB, BDEF, bwb)


# --------------------------------------------------------------- jet components on their own, with their options
@sub("C18", "jet_parts", case(JET, dict(JOPT, **JX)), quick=400, thorough=8000, shards=4, rule="at least one option away from its default")
def t_parts(c, ctx):
    o = dict(JDEF, **c["opts"])
    g = lambda *ks: {k: c["opts"][k] for k in ks if k in c["opts"]}  # noqa: E731
    kn = lambda k: {"kneeling_gear_parameter": c["opts"][k]} if k in c["opts"] else {}  # noqa: E731
    parts = [
        (W.WingWeight_JetTransport, g("n_ult", "control_surface_area_frac"), {"W_wing": "W_wing"}), (W.VstabWeight_JetTransport, g("n_ult", "T_tail"), {"W_vstab": "W_vstab"}),
        (W.MainLandingGearWeight_JetTransport, dict(g("n_land_ult"), **kn("kneeling_main_gear_parameter")), {"W_mlg": "W_mlg"}),
        (W.NoseLandingGearWeight_JetTransport, dict(g("n_land_ult"), **kn("kneeling_nose_gear_parameter")), {"W_nlg": "W_nlg"}), (W.NacelleWeight_JetTransport, {}, {"W_nacelle": "W_nacelle"}),
        (W.FurnishingWeight_JetTransport, g("K_lav", "K_buf"), {"W_furnishings": "W_furnishings"}),
    ]
    for cls, opts, outs in parts:
        p = build(cls(**opts))
        for v in c["sets"]:
            for n, (u, _) in JET.items():
                try:
                    feed(p, JET, c["units"], v, {n})
                except KeyError:
                    pass
            p.run_model()
            r = jet(v, o)
            for k in outs:
                close(gv(p, k, "lb"), r[k], RT, 0, "%s of %s alone" % (k, cls.__name__))
    # the pieces of two-stage regressions
    for v in c["sets"]:
        p = build(W.HstabConst_JetTransport(**g("fuselage_width_frac")), {"ac|geom|hstab|S_ref": (v["ac|geom|hstab|S_ref"], "ft**2"), "ac|geom|hstab|AR": v["ac|geom|hstab|AR"], "ac|geom|fuselage|height": (v["ac|geom|fuselage|height"], "ft")})
        p.run_model()
        close(gv(p, "HstabConst"), 1 + o["fuselage_width_frac"] * v["ac|geom|fuselage|height"] / np.sqrt(v["ac|geom|hstab|S_ref"] * v["ac|geom|hstab|AR"]), RT, 0, "1 + Fw/Bh")
    if c["opts"]:
        ctx.ok()


# --------------------------------------------------------------- small turboprops
def turboprop(v, o, hybrid):
    n, M, S = o.get("n_ult", 5.7), v["ac|weights|MTOW"], v["ac|geom|wing|S_ref"]
    r = {}
    cs = np.cos(v["ac|geom|wing|c4sweep"])
    # Raymer 1992, general aviation: eq. 15.46 wing, 15.49 fuselage, 15.50/51 gear, 15.53 fuel system
    r["W_wing"] = 0.036 * S**0.758 * v["ac|weights|W_fuel_max"] ** 0.0035 * (v["ac|geom|wing|AR"] / cs**2) ** 0.6 * v["ac|q_cruise"] ** 0.006 * v["ac|geom|wing|taper"] ** 0.04 / (100 * v["ac|geom|wing|toverc"] / cs) ** 0.3 * (n * M) ** 0.49
    Lf, D, w = v["ac|geom|fuselage|length"], v["ac|geom|fuselage|height"], v["ac|geom|fuselage|width"]
    fus = 0.052 * v["ac|geom|fuselage|S_wet"] ** 1.086 * (n * M) ** 0.177 / v["ac|geom|hstab|c4_to_wing_c4"] ** 0.051 / (Lf / D) ** 0.072 * v["ac|q_cruise"] ** 0.241
    d = (w + D) / 2
    r["W_fuselage"] = [fus + 11.9 * (PI / 4 * d**2 * 0.8 * Lf * 8) ** 0.271, fus + 11.9 * (PI * d * 0.8 * Lf * 8) ** 0.271]
    r["W_nacelle"] = 2.5 * v["P_TO"] ** 0.5
    r["W_empennage"] = 0.04 * (n * (v["ac|geom|vstab|S_ref"] + v["ac|geom|hstab|S_ref"]) ** 2) ** 0.75
    gear = lambda f: 0.095 * (n * v["ac|weights|MLW"]) ** 0.768 * (v["ac|geom|maingear|length"] * f) ** 0.409 + 0.125 * (n * v["ac|weights|MLW"]) ** 0.566 * (v["ac|geom|nosegear|length"] * f) ** 0.845  # noqa: E731
    r["W_gear"] = [gear(1.0), gear(1 / 12)]
    r["W_fuelsystem"] = 2.49 * (v["ac|weights|W_fuel_max"] / 6.55) ** 0.726 * 0.5**0.363
    r["W_equipment"] = [equipment(v, r["W_fuelsystem"], lambda L, b: L + b), equipment(v, r["W_fuelsystem"], lambda L, b: L * b)]
    return r


def equipment(v, Wfs, hyd):
    M, px = v["ac|weights|MTOW"], v["ac|num_passengers_max"]
    b = np.sqrt(v["ac|geom|wing|S_ref"] * v["ac|geom|wing|AR"])
    av = 2.117 * 110**0.933
    return (0.23 * M**0.666 + 0.2673 * hyd(v["ac|geom|fuselage|length"], b) ** 0.937 + av + 12.57 * (Wfs + av) ** 0.51 + 0.265 * M**0.52 * px**0.68 * av**0.17 * 0.95 + 30 + 1.2 * px + 0.412 * px**1.145 * M**0.489 + 0.003 * M)


FIND = {"W_fuselage": "pressvessel-area", "W_gear": "gear-feet-as-inches", "W_equipment": "hydraulics-product"}


@st.composite
def tp_case(draw):
    hybrid = draw(bools)
    table = HYB if hybrid else TP
    units, sets = draw_inputs(draw, table, draw(st.integers(1, 3)))
    return dict(hybrid=hybrid, units=units, sets=sets, n_ult=draw(fl(3, 9)), Kfsp=draw(fl(5, 8)))


@sub("C18", "turboprop", tp_case, quick=500, thorough=15000, shards=4, rule="all")
def t_tp(c, ctx):
    table = HYB if c["hybrid"] else TP
    cls = W.TwinSeriesHybridEmptyWeight if c["hybrid"] else W.SingleTurboPropEmptyWeight
    p = build(cls())
    for v in c["sets"]:
        feed(p, table, c["units"], v)
        p.run_model()
        got = {}
        for k, w in turboprop(v, {}, c["hybrid"]).items():
            g = got[k] = gv(p, k, "lb")[0]
            if isinstance(w, list) and abs(g - w[0]) > RT * abs(w[0]) and abs(g - w[1]) <= RT * abs(w[1]):
                ctx.known(FIND[k], "%s: %g instead of %g lb" % (k, g, w[0]))
                continue
            close(g, w[0] if isinstance(w, list) else w, RT, 0, "%s of %s" % (k, cls.__name__))
        st_ = sum(got[k] for k in ("W_wing", "W_fuselage", "W_nacelle", "W_empennage", "W_gear"))
        close(gv(p, "W_structure", "lb"), st_, RT, 0, "structural weight")
        close(gv(p, "W_structure_adjusted", "lb"), 1.6 * st_, RT, 0, "structural weight with its factor")
        rest = ["W_engine", "W_propeller"] + (["W_motors", "W_generator"] if c["hybrid"] else [])
        close(gv(p, "OEW", "lb"), 1.6 * st_ + got["W_fuelsystem"] + got["W_equipment"] + sum(v[k] for k in rest) + 20 / 0.45359237, RT, 0, "empty weight of %s" % cls.__name__)
    # options of the stand-alone components
    v, n, K = c["sets"][0], c["n_ult"], c["Kfsp"]
    s = 0.04 * (n * (v["ac|geom|vstab|S_ref"] + v["ac|geom|hstab|S_ref"]) ** 2) ** 0.75

    def alone(cls, out, want, **o):
        q = build(cls(**o))
        for nm in table:
            try:
                feed(q, table, c["units"], v, {nm})
            except KeyError:
                pass
        q.run_model()
        if callable(want):
            want(gv(q, out, "lb")[0])
        else:
            close(gv(q, out, "lb"), want, RT, 0, "%s alone with %s" % (out, o))
    alone(W.EmpennageWeight_SmallTurboprop, "W_empennage", s, n_ult=n)
    alone(W.FuelSystemWeight_SmallTurboprop, "W_fuelsystem", 2.49 * (v["ac|weights|W_fuel_max"] / K) ** 0.726 * 0.5**0.363, Kfsp=K)
    alone(W.NacelleWeight_MultiTurboprop, "W_nacelle", 0.14 * v["P_TO"])
    alone(W.NacelleWeight_SmallSingleTurboprop, "W_nacelle", 2.5 * v["P_TO"] ** 0.5)
    own = turboprop(v, dict(n_ult=n), False)
    alone(W.WingWeight_SmallTurboprop, "W_wing", own["W_wing"], n_ult=n)
    for k, cls in (("W_fuselage", W.FuselageWeight_SmallTurboprop), ("W_gear", W.LandingGearWeight_SmallTurboprop)):  # either published or the recorded finding
        def want(g, k=k):
            if abs(g - own[k][1]) > RT * abs(own[k][1]):
                close(g, own[k][0], RT, 0, "%s alone with n_ult=%g" % (k, n))
        alone(cls, k, want, n_ult=n)
    ctx.ok("hybrid" if c["hybrid"] else "single")
