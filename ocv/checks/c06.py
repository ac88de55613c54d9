"""C06: atmosphere."""
import numpy as np
from hypothesis import strategies as st

from ..core import sub, need
from ..lib import fl, arr, arrs, tail, sfl, gv, close, build
from openconcept.atmospherics import (ComputeAtmosphericProperties, TemperatureComp, PressureComp, DensityComp, SpeedOfSoundComp,
                                      TrueAirspeedComp, EquivalentAirspeedComp, MachNumberComp, DynamicPressureComp)

# altitude: everywhere, around both ends of the smoothing region, and exactly on them
alt = st.one_of(fl(-500.0, 20000.0), fl(-500.0, 10500.0), fl(10400.0, 11600.0), fl(11500.0, 20000.0), fl(10499.0, 10501.0), fl(11499.0, 11501.0),
                st.sampled_from([0.0, 10500.0, 11000.0, 11500.0]))
HU = {"m": 1.0, "km": 1e3, "ft": 0.3048}
VU = {"m/s": 1.0, "kn": 1852.0 / 3600}


@st.composite
def arrs_alt(draw, n):
    if n <= 24:
        return draw(arr(n, alt))
    b = draw(arr(8, alt))
    return [b[i % 8] if i % 3 else 0.5 * (b[i % 8] + b[(i // 3) % 8]) for i in range(n)]


@st.composite
def cases(draw):
    n = draw(tail(1, 9, 40))
    return dict(n=n, h=draw(arrs_alt(n)), hu=draw(st.sampled_from(list(HU))), v=draw(arrs(n, fl(1.0, 220.0) if n > 24 else fl(1.0, 350.0))), vu=draw(st.sampled_from(list(VU))),
                dT=draw(arr(n, sfl(60.0)) if n <= 24 else arr(n, st.sampled_from([-60.0, -12.0, 0.0, 35.0, 60.0]))), tas=draw(st.booleans()))


def us76(h):
    """1976 US standard atmosphere up to 20 km (geopotential), from its defining constants."""
    h = np.asarray(h, float)
    g, R, T0, p0, L = 9.80665, 287.053, 288.15, 101325.0, 0.0065
    T = np.where(h < 11000, T0 - L * h, T0 - L * 11000)
    p11 = p0 * (1 - L * 11000 / T0) ** (g / (R * L))
    with np.errstate(invalid="ignore"):
        p = np.where(h < 11000, p0 * (1 - L * np.minimum(h, 11000) / T0) ** (g / (R * L)), p11 * np.exp(-g * (h - 11000) / (R * 216.65)))
    return T, p


def _props(h, v, dT, tas, hu="m", vu="m/s"):
    p = build(ComputeAtmosphericProperties(num_nodes=len(h), true_airspeed_in=tas))
    p.set_val("fltcond|h", np.array(h) / HU[hu], units=hu)
    p.set_val("fltcond|TempIncrement", dT, units="degC")
    p.set_val("fltcond|Utrue" if tas else "fltcond|Ueas", np.array(v) / VU[vu], units=vu)
    p.run_model()
    return dict(T=gv(p, "fltcond|T", "K"), p=gv(p, "fltcond|p", "Pa"), rho=gv(p, "fltcond|rho", "kg/m**3"), a=gv(p, "fltcond|a", "m/s"),
                Utrue=gv(p, "fltcond|Utrue", "m/s"), Ueas=gv(p, "fltcond|Ueas", "m/s"), M=gv(p, "fltcond|M"), q=gv(p, "fltcond|q", "Pa"))


@sub("C06", "standard", cases, quick=700, thorough=20000, shards=4, rule="two or more atmospheric regions in one vector")
def standard(case, ctx):
    h = np.array(case["h"])
    r = _props(h, case["v"], case["dT"], case["tas"], case["hu"], case["vu"])
    T, p = us76(h)
    smooth = (h > 10500 - 1e-6) & (h <= 11500 + 1e-6)
    tropo = (h <= 10500 - 1e-6)
    Tstd = r["T"] - np.array(case["dT"])
    need(np.all(np.abs(Tstd - T)[~smooth] < 0.05), "temperature off the 1976 standard: h=%s T=%s standard %s", h.tolist(), Tstd.tolist(), T.tolist())
    need(np.all(np.abs(Tstd - T)[smooth] < 1.0), "temperature in the smoothing region: h=%s T=%s standard %s", h.tolist(), Tstd.tolist(), T.tolist())
    rel = np.abs(r["p"] / p - 1)
    need(np.all(rel[tropo] < 6e-4), "pressure off the 1976 standard: h=%s p=%s standard %s", h.tolist(), r["p"].tolist(), p.tolist())
    need(np.all(rel[~tropo] < 6e-3), "pressure off the 1976 standard: h=%s p=%s standard %s", h.tolist(), r["p"].tolist(), p.tolist())
    # each node depends on its own altitude only; pressure ignores the increment; the increment is additive
    for k in range(case["n"]):
        o = _props([h[k]], [case["v"][k]], [0.0], case["tas"])
        close(r["p"][k], o["p"][0], 1e-9, 0, "pressure at node %d, alone and without increment" % k)
        close(r["T"][k], o["T"][0] + case["dT"][k], 1e-10, 0, "temperature at node %d, alone plus increment" % k)
    reg = {0 if x <= 10500 else (2 if x > 11500 else 1) for x in h}
    if len(reg) > 1:
        ctx.ok("regions=%s" % sorted(reg))


@sub("C06", "consistency", cases, quick=700, thorough=20000, shards=4, rule="non-zero temperature increment and airspeed at more than one node")
def consistency(case, ctx):
    r = _props(case["h"], case["v"], case["dT"], case["tas"], case["hu"], case["vu"])
    Rg = r["p"] / r["rho"] / r["T"]
    need(np.all(np.abs(Rg - 287.055) < 0.01), "p/(rho T) = %s is not the gas constant of air", Rg.tolist())
    close(Rg, np.full_like(Rg, Rg[0]), 1e-12, 0, "gas constant over the nodes")
    g = r["a"] ** 2 / r["T"] / Rg
    need(np.all(np.abs(g - 1.4) < 1e-4), "a^2/(R T) = %s is not 1.4", g.tolist())
    close(r["M"], r["Utrue"] / r["a"], 1e-12, 0, "Mach number")
    close(r["q"], 0.5 * r["rho"] * r["Utrue"] ** 2, 1e-12, 0, "dynamic pressure")
    close(r["Ueas"] ** 2 * 1.225, r["Utrue"] ** 2 * r["rho"], 1e-10, 0, "equivalent airspeed")
    close(r["Utrue" if case["tas"] else "Ueas"], case["v"], 1e-10, 0, "airspeed given")
    # the other direction is its inverse
    back = _props(case["h"], r["Ueas" if case["tas"] else "Utrue"], case["dT"], not case["tas"])
    for k in ("p", "T", "rho", "a", "M", "q", "Ueas", "Utrue"):
        close(back[k], r[k], 1e-10, 0, "%s after converting the airspeed back" % k)
    if case["n"] > 1 and any(case["dT"]):
        ctx.ok("tas" if case["tas"] else "eas")


@st.composite
def pairs(draw):
    return dict(h=draw(alt), d=draw(st.one_of(fl(1e-3, 1.0), fl(1.0, 60.0), fl(60.0, 3000.0))), up=draw(st.booleans()))


@sub("C06", "smooth", pairs, quick=600, thorough=20000, shards=4, rule="any pair of altitudes")
def smooth(case, ctx):
    a, b = case["h"], min(case["h"] + case["d"], 20000.0)
    if b - a < 1e-3:
        return
    hh = [a, 0.5 * (a + b), b]
    if case["up"]:
        r = _props(hh, [100.0] * 3, [0.0] * 3, False)
    else:
        r = {k: v[::-1] for k, v in _props(hh[::-1], [100.0] * 3, [0.0] * 3, False).items()}
    p, T, rho = r["p"], r["T"], r["rho"]
    need(p[0] > p[1] > p[2], "pressure does not fall with altitude: h=%s p=%s", hh, p.tolist())
    # hydrostatic balance as continuity of the slope (isothermal/linear layers: 1.2 % from the fitted constants and smoothing)
    slope = -(p[2] - p[0]) / (b - a)
    lo, hi = 9.81 * rho[2] * 0.975, 9.81 * rho[0] * 1.025
    need(lo <= slope <= hi, "pressure slope %g outside [%g, %g] between h=%g and %g", slope, lo, hi, a, b)
    tl = (T[2] - T[0]) / (b - a)
    need(-0.0105 <= tl <= 0.0015, "temperature slope %g K/m between h=%g and %g", tl, a, b)
    if b - a <= 1.0:
        # continuous slope: first half vs second half
        s1, s2 = (T[1] - T[0]) / (hh[1] - hh[0]), (T[2] - T[1]) / (hh[2] - hh[1])
        need(abs(s1 - s2) < 6e-5 * (b - a) + 2e-12 * 300 / (b - a) + 1e-9, "temperature slope jumps from %g to %g at h=%g", s1, s2, a)
        s1, s2 = (p[1] - p[0]) / (hh[1] - hh[0]), (p[2] - p[1]) / (hh[2] - hh[1])
        need(abs(s1 - s2) < 5e-3 * (b - a) + 2e-12 * 1e5 / (b - a) + 1e-7, "pressure slope jumps from %g to %g at h=%g", s1, s2, a)
    ctx.ok("near a join" if (abs(a - 10500) < 2 or abs(a - 11500) < 2) else "elsewhere")


@st.composite
def comps(draw):
    n = draw(tail(1, 6, 24))
    return dict(n=n, rho=draw(arr(n, fl(0.05, 1.5))), T=draw(arr(n, fl(180.0, 330.0))), p=draw(arr(n, fl(3e3, 1.1e5))), u=draw(arr(n, fl(0.0, 350.0))), a=draw(arr(n, fl(250.0, 360.0))))


@sub("C06", "components", comps, quick=200, thorough=5000, shards=2, rule="more than one node")
def components(case, ctx):
    n = case["n"]
    c = {k: np.array(v) for k, v in case.items() if k != "n"}

    def f(cls, out, **ins):
        p = build(cls(num_nodes=n))
        for k, v in ins.items():
            p.set_val("fltcond|" + k, v)
        p.run_model()
        return gv(p, "fltcond|" + out)

    close(f(DensityComp, "rho", p=c["p"], T=c["T"]), c["p"] / (287.055 * c["T"]), 5e-5, 0, "ideal gas density")
    close(f(SpeedOfSoundComp, "a", T=c["T"]), np.sqrt(1.4 * 287.055 * c["T"]), 5e-5, 0, "speed of sound")
    close(f(TrueAirspeedComp, "Utrue", rho=c["rho"], Ueas=c["u"]), c["u"] * np.sqrt(1.225 / c["rho"]), 1e-12, 0, "true airspeed")
    close(f(EquivalentAirspeedComp, "Ueas", rho=c["rho"], Utrue=c["u"]), c["u"] * np.sqrt(c["rho"] / 1.225), 1e-12, 0, "equivalent airspeed")
    close(f(MachNumberComp, "M", a=c["a"], Utrue=c["u"]), c["u"] / c["a"], 1e-12, 0, "Mach number")
    close(f(DynamicPressureComp, "q", rho=c["rho"], Utrue=c["u"]), 0.5 * c["rho"] * c["u"] ** 2, 1e-12, 0, "dynamic pressure")
    if n > 1:
        ctx.ok()
