"""C11: propulsion components."""
import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import RectBivariateSpline, InterpolatedUnivariateSpline

from ..core import sub, need
from ..lib import fl, logfl, arr, tail, vec, bools, gv, close, build, raises
from ..data.prop import TABLES
from openconcept.propulsion import SimpleMotor, SimpleGenerator, SimpleTurboshaft, PowerSplit, SimplePropeller

PW = {"W": 1.0, "kW": 1e3, "hp": 745.69987158227}
UT = 1e-6  # OpenMDAO's own conversion constants carry about seven digits


def opts(draw, names, **rng):
    """Options left at their default (None) or drawn."""
    return {k: draw(st.one_of(st.none(), rng[k])) for k in names}


OPT = dict(efficiency=st.one_of(st.sampled_from([1.0, 0.0, 0.5]), fl(0.0, 1.0)), weight_inc=fl(0.0, 1e-2), weight_base=fl(0.0, 500.0),
           cost_inc=fl(0.0, 20.0), cost_base=fl(0.0, 1e6), psfc=fl(1e-8, 5e-7))


@st.composite
def machines(draw):
    n = draw(tail(1, 6, 24))
    kind = draw(st.sampled_from(["motor", "generator", "turboshaft", "split-fraction", "split-fixed"]))
    names = ["weight_inc", "weight_base", "cost_inc", "cost_base"] + (["psfc"] if kind == "turboshaft" else ["efficiency"])
    return dict(kind=kind, n=n, opt=opts(draw, names, **OPT), rating=draw(logfl(50.0, 3e8)), ru=draw(st.sampled_from(list(PW))),
                x=draw(st.one_of(vec(n, 0.0, 1.2), vec(n, -0.5, 2.5))), xu=draw(st.sampled_from(list(PW))), frac=draw(vec(n, 0.0, 1.0)),
                exact=draw(arr(n, st.integers(0, 3))), default_rating=draw(bools))


@sub("C11", "machines", machines, quick=2000, thorough=40000, shards=6, rule="several nodes with different positive power and a rating")
def t_machines(c, ctx):
    n, kind = c["n"], c["kind"]
    o = {k: v for k, v in c["opt"].items() if v is not None}
    cls = dict(motor=SimpleMotor, generator=SimpleGenerator, turboshaft=SimpleTurboshaft).get(kind, PowerSplit)
    kw = dict(o)
    if kind.startswith("split"):
        kw["rule"] = kind.split("-")[1]
    p = build(cls(num_nodes=n, **kw))
    x = np.array(c["x"])
    R = c["rating"]
    dflt = {"motor": (1 / 5000, 0.0, 100 / 745, 1.0), "generator": (1 / 5000, 0.0, 100 / 745, 1.0), "turboshaft": (0.0, 0.0, 1.04, 0.0)}.get(kind, (0.0, 0.0, 0.0, 0.0))
    wi, wb, ci, cb = (o.get(k, d) for k, d in zip(("weight_inc", "weight_base", "cost_inc", "cost_base"), dflt))
    eta = o.get("efficiency", 1.0)
    rate = dict(motor="elec_power_rating", generator="elec_power_rating", turboshaft="shaft_power_rating").get(kind, "power_rating")
    if kind.startswith("split") and c["default_rating"]:
        R = 99999999.0
    else:
        p.set_val(rate, R / PW[c["ru"]], units=c["ru"])
    at = 1e-7 * R
    if kind in ("motor", "turboshaft"):
        p.set_val("throttle", x)
    elif kind == "generator":
        p.set_val("shaft_power_in", x * R / PW[c["xu"]], units=c["xu"])
    else:
        p.set_val("power_in", x * R / PW[c["xu"]], units=c["xu"])
        f = np.array(c["frac"])
        if kind == "split-fraction":
            p.set_val("power_split_fraction", f)
        else:
            # requested amounts: below, above and exactly the power available
            amt = np.array([{0: a * R, 1: b * R, 2: b * R * (1 + a), 3: b * R * a}[e] for a, b, e in zip(f, x, c["exact"])])
            if c["xu"] != "W":
                amt = amt * (1 + 1e-7)
            p.set_val("power_split_amount", amt, units="W")
    p.run_model()
    P = x * R
    if kind == "motor":
        close(gv(p, "shaft_power_out", "W"), P * eta, UT, at, "motor shaft power")
        close(gv(p, "elec_load", "W"), P, UT, at, "motor load")
        close(gv(p, "heat_out", "W"), P * (1 - eta), UT, at, "motor heat")
        close(gv(p, "shaft_power_out", "W") + gv(p, "heat_out", "W"), gv(p, "elec_load", "W"), 1e-12, 1e-12 * R, "power balance")
        margin = x
    elif kind == "generator":
        close(gv(p, "elec_power_out", "W"), P * eta, UT, at, "generator output")
        close(gv(p, "heat_out", "W"), P * (1 - eta), UT, at, "generator heat")
        margin = x * eta
    elif kind == "turboshaft":
        close(gv(p, "shaft_power_out", "W"), P, UT, at, "shaft power")
        close(gv(p, "fuel_flow", "kg/s"), P * o.get("psfc", 0.6 * 1.68965774e-7), UT, at * 1e-7, "fuel flow")
        margin = x
    else:
        A, B, H = gv(p, "power_out_A", "W"), gv(p, "power_out_B", "W"), gv(p, "heat_out", "W")
        if kind == "split-fraction":
            a = P * f
        else:
            a = np.minimum(P, amt)
        close(A, a * eta, UT, at, "split output A")
        close(B, (P - a) * eta, UT, 3e-6 * R * max(1.0, x.max()), "split output B")
        close(H, P * (1 - eta), UT, at, "split heat")
        close(A + B + H, gv(p, "power_in", "W"), 1e-12, 1e-12 * R, "split power balance")
        margin = x
    close(gv(p, "component_sizing_margin"), margin, UT, 1e-9, "sizing margin")
    close(gv(p, "component_weight", "kg"), wi * R + wb, UT, 1e-12 * R * wi, "component weight")
    close(gv(p, "component_cost", "USD"), ci * R + cb, UT, 1e-12 * R * ci, "component cost")
    if n > 1 and len(set(c["x"])) > 1:
        ctx.ok(kind)


@st.composite
def bad(draw):
    return dict(rule=draw(st.sampled_from(["Fraction", "", "half", "fixed ", None])), blades=draw(st.sampled_from([1, 2, 5, 6, 0])))


@sub("C11", "refused", bad, quick=20, rule="unknown split rule and blade counts without a map")
def t_bad(c, ctx):
    raises(lambda: build(PowerSplit(rule=c["rule"])), "split rule %r" % c["rule"], ValueError)
    raises(lambda: build(SimplePropeller(num_blades=c["blades"])), "%d blades" % c["blades"], NotImplementedError)
    ctx.ok()


@st.composite
def props(draw):
    n = draw(tail(1, 6, 24))
    nb = draw(st.sampled_from([3, 4, 4]))
    CP, J, E, SCP, S = TABLES[nb]
    jmax, cmax = float(J[-1]), float(min(CP[-1], SCP[-1] if draw(bools) else CP[-1]))
    jj = st.one_of(fl(0.0, 0.1), fl(0.1, 0.2), fl(0.2, jmax), fl(0.005, jmax), st.sampled_from([0.1, 0.2, 0.15, 0.0999, 0.2001]),
                   st.sampled_from([float(v) for v in J]))
    cc = st.one_of(fl(0.0, 0.3), fl(0.0, cmax), fl(0.02, cmax), st.sampled_from([float(v) for v in CP if v <= cmax]),
                   st.sampled_from([float(v) for v in SCP if v <= cmax]))
    return dict(n=n, nb=nb, nbdef=draw(bools), J=draw(arr(n, jj)), cp=draw(arr(n, cc)), rpm=draw(vec(n, 200.0, 6000.0)), D=draw(fl(0.3, 8.0)),
                rho=draw(vec(n, 0.05, 2.0)), rating=draw(logfl(1e3, 1e7)))


@sub("C11", "propeller", props, quick=1200, thorough=30000, shards=6, rule="nodes in at least two of the static, blended and dynamic regimes")
def t_prop(c, ctx):
    n, nb, D = c["n"], c["nb"], c["D"]
    CP, Jg, E, SCP, S = TABLES[nb]
    rho, rpm, J, cp = (np.array(c[k]) for k in ("rho", "rpm", "J", "cp"))
    rps = rpm / 60

    def pre(m):
        for k, u in (("rpm", "rpm"), ("diameter", "m"), ("fltcond|rho", "kg/m**3")):
            m.set_input_defaults(k, val=np.ones(1 if k == "diameter" else n), units=u)

    kw = {} if (nb == 4 and c["nbdef"]) else dict(num_blades=nb)
    p = build(SimplePropeller(num_nodes=n, **kw), pre=pre)
    p.set_val("rpm", rpm, units="rpm")
    p.set_val("diameter", D, units="m")
    p.set_val("fltcond|rho", rho, units="kg/m**3")
    p.set_val("fltcond|Utrue", J * rps * D, units="m/s")
    p.set_val("shaft_power_in", cp * rho * rps**3 * D**5, units="W")
    p.set_val("power_rating", c["rating"], units="W")
    p.run_model()
    gJ, gcp, T = gv(p, "J"), gv(p, "cp"), gv(p, "thrust", "N")
    close(gJ, J, 1e-7, 1e-12, "advance ratio")
    close(gcp, cp, 1e-7, 1e-12, "power coefficient")
    close(gv(p, "prop_Vtip"), rps * np.pi * D, 1e-7, 0, "tip speed")
    eta = RectBivariateSpline(CP, Jg, E, kx=3, ky=3, s=0).ev(gcp, gJ)
    lo_j = Jg[0]
    inside = (gJ >= lo_j) & (gJ <= Jg[-1]) & (gcp <= CP[-1])
    close(gv(p, "eta_prop")[inside], eta[inside], 1e-6, 1e-8, "propulsive efficiency map")
    ins2 = gcp <= SCP[-1]
    ctcp = InterpolatedUnivariateSpline(SCP, S, k=3)(gcp)
    close(gv(p, "ct_over_cp")[ins2], ctcp[ins2], 1e-6, 1e-8, "static thrust map")
    eta, ctcp = gv(p, "eta_prop"), gv(p, "ct_over_cp")
    Tdyn = np.array([e * pw / u if u > 0 else np.nan for e, pw, u in zip(eta, gcp * rho * rps**3 * D**5, gJ * rps * D)])
    Tst = ctcp * gcp * rho * rps**2 * D**4
    w = np.clip((gJ - 0.1) / 0.1, 0, 1)
    want = np.where(w <= 0, Tst, np.where(w >= 1, Tdyn, (1 - w) * Tst + w * Tdyn))
    close(T, want, 1e-7, 1e-9 * np.max(rho * rps**2 * D**4), "thrust")
    # useful power T U = eta P in the dynamic regime
    lb, ft, hp = 0.45359237, 0.3048, 745.69987158227
    close(gv(p, "component_weight", "kg"), lb * 0.108 * (D / ft * c["rating"] / hp * np.sqrt(nb)) ** 0.782, 1e-6, 0, "propeller weight")
    reg = {0 if j <= 0.1 else 2 if j >= 0.2 else 1 for j in J}
    if len(reg) > 1:
        ctx.ok("blades=%d" % nb, "regimes=%s" % sorted(reg))
