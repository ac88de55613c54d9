"""C19: lift, drag buildup, maximum lift, wave drag."""
import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

from ..core import sub, need
from ..lib import fl, logfl, arr, tail, vec, bools, gv, close, build, setv
from openconcept.aerodynamics import PolarDrag, StallSpeed, Lift, ParasiteDragCoefficient_JetTransport, ParasiteDragCoefficient_BWB, CleanCLmax, FlapCLmax
from openconcept.aerodynamics import drag_jet_transport as dj
from openconcept.aerodynamics.openaerostruct import WaveDragFromSections, CLmaxCriticalSectionVLM, TrapezoidalPlanformMesh, VLM

G = 9.80665
AU = [("m**2", 1.0), ("ft**2", 0.3048**2)]
LU = [("m", 1.0), ("ft", 0.3048)]
PI = np.pi


# --------------------------------------------------------------- lift, polar, stall
@st.composite
def polar(draw):
    n = draw(tail(1, 9, 30))
    one = lambda: dict(CL=draw(vec(n, -1.5, 3.0)), q=draw(vec(n, 0.5, 6e4)), S=draw(logfl(1, 900)), AR=draw(fl(0.8, 40)), e=draw(fl(0.4, 1.0)), CD0=draw(vec(n, 0.002, 0.1)), W=draw(logfl(20, 6e5)), CLmax=draw(fl(0.5, 3.5)))  # noqa: E731
    return dict(n=n, vec=draw(st.sampled_from([None, True, False])), sets=[one() for _ in range(draw(st.integers(1, 3)))], au=draw(st.sampled_from(AU)))


@sub("C19", "polar", polar, quick=1000, thorough=30000, shards=4, rule="at least two different flight conditions")
def t_polar(c, ctx):
    n = c["n"]
    kw = {} if c["vec"] is None else dict(vec_CD0=c["vec"])
    pd, pl, ps = build(PolarDrag(num_nodes=n, **kw)), build(Lift(num_nodes=n)), build(StallSpeed())
    for s in c["sets"]:
        A = (s["S"] / c["au"][1], c["au"][0])
        CL, q = np.array(s["CL"]), np.array(s["q"])
        cd0 = np.array(s["CD0"]) if c["vec"] else s["CD0"][0]
        setv(pd, {"fltcond|CL": CL, "fltcond|q": (q, "Pa"), "ac|geom|wing|S_ref": A, "CD0": cd0, "e": s["e"], "ac|geom|wing|AR": s["AR"]})
        setv(pl, {"fltcond|CL": CL, "fltcond|q": (q, "Pa"), "ac|geom|wing|S_ref": A})
        setv(ps, {"weight": (s["W"], "kg"), "ac|geom|wing|S_ref": A, "CLmax": s["CLmax"]})
        for p in (pd, pl, ps):
            p.run_model()
        close(gv(pd, "drag", "N") / (q * s["S"]), cd0 + CL**2 / (PI * s["e"] * s["AR"]), 1e-9, 0, "drag coefficient")
        close(gv(pl, "lift", "N") / (q * s["S"]), CL, 1e-9, 1e-12, "lift coefficient")
        V = gv(ps, "Vstall_eas", "m/s")
        close(0.5 * 1.225 * V**2 * s["S"] * s["CLmax"], s["W"] * G, 1e-8, 0, "lift at the stall speed")
        if len(set(zip(s["CL"], s["q"]))) > 1:
            ctx.ok("vec=%s" % c["vec"])


# --------------------------------------------------------------- parasite drag buildups
def friction(L, U, rho, T, lam):
    mu = 1.458e-6 * T**1.5 / (T + 100.4)  # Sutherland with the constants of the 1976 standard
    Re = rho * U * L / mu
    turb = lambda R: 0.523 / np.log(0.06 * R) ** 2  # noqa: E731
    return turb(Re) + lam * (1.32824 / np.sqrt(lam * Re) - turb(lam * Re)) if lam > 0 else turb(Re)


def mac(S, AR, t):
    cr = 2 * np.sqrt(S / AR) / (1 + t)
    return 2 / 3 * cr * (1 + t + t**2) / (1 + t)


JO = dict(drag_fudge_factor=fl(0.3, 3), FF_nacelle=fl(0.5, 3), flap_chord_frac=fl(0, 0.6), Q_flap=fl(0.5, 2), wing_area_flapped_frac=fl(0, 1), nacelle_laminar_frac=st.one_of(fl(0, 0.6), fl(0, 1)))
JX = dict(Q_fuselage=fl(0.5, 2), Q_tail=fl(0.5, 2), Q_wing=fl(0.5, 2), fuselage_laminar_frac=fl(0, 1), hstab_laminar_frac=fl(0, 1), vstab_laminar_frac=fl(0, 1), wing_laminar_frac=fl(0, 1), include_wing=bools)
JD = dict(drag_fudge_factor=1.0, FF_nacelle=1.5, flap_chord_frac=0.2, Q_flap=1.25, wing_area_flapped_frac=0.9, nacelle_laminar_frac=0.0, Q_fuselage=1.0, Q_tail=1.05, Q_wing=1.0, fuselage_laminar_frac=0.0, hstab_laminar_frac=0.15,
          vstab_laminar_frac=0.15, wing_laminar_frac=0.15, include_wing=True)


@st.composite
def parasite(draw, bwb):
    n = draw(tail(1, 7, 24))
    opts = dict(JO) if bwb else dict(JO, **JX)
    full = draw(bools)

    def one():
        g = {}
        for s in ("wing", "hstab", "vstab"):
            g[s] = dict(S=draw(logfl(2, 600)), AR=draw(fl(1, 15)), t=draw(fl(0.15, 1)), tc=draw(fl(0.05, 0.22)))
        return dict(U=draw(vec(n, 20, 300)), rho=draw(vec(n, 0.1, 1.4)), T=draw(vec(n, 190, 320)), fl=draw(logfl(4, 80)), fh=draw(logfl(0.8, 8)), fw=draw(logfl(10, 2e3)), nl=draw(logfl(0.6, 8)), nw=draw(logfl(1, 90)), ne=draw(st.one_of(st.integers(1, 8).map(float), fl(1, 4))), g=g,
                    flap=draw(fl(0, 40)), sweep=draw(fl(-0.5, 0.8)))
    return dict(n=n, bwb=bwb, conf=draw(st.sampled_from([None, "clean", "takeoff", "takeoff"])), opts={k: draw(s) for k, s in opts.items() if full or draw(st.integers(0, 2)) == 0}, sets=[one() for _ in range(draw(st.integers(1, 2)))],
                au=draw(st.sampled_from(AU)), lu=draw(st.sampled_from(LU)), deg=draw(bools))


def buildup(c, ctx):
    n, bwb = c["n"], c["bwb"]
    o = dict(JD, **({"wing_area_flapped_frac": 0.0} if bwb else {}))
    o.update(c["opts"])
    take = c["conf"] == "takeoff"
    kw = dict(c["opts"], num_nodes=n)
    if c["conf"]:
        kw["configuration"] = c["conf"]
    p = build((ParasiteDragCoefficient_BWB if bwb else ParasiteDragCoefficient_JetTransport)(**kw))
    au, af = c["au"]
    lu, lf = c["lu"]
    for s in c["sets"]:
        U, rho, T = (np.array(s[k]) for k in ("U", "rho", "T"))
        g = s["g"]
        ins = {"fltcond|Utrue": (U, "m/s"), "fltcond|rho": (rho, "kg/m**3"), "fltcond|T": (T, "K"), "ac|geom|wing|S_ref": (g["wing"]["S"] / af, au), "ac|geom|nacelle|length": (s["nl"] / lf, lu), "ac|geom|nacelle|S_wet": (s["nw"] / af, au),
               "ac|propulsion|num_engines": s["ne"]}
        if not bwb:
            ins.update({"ac|geom|fuselage|length": (s["fl"] / lf, lu), "ac|geom|fuselage|height": (s["fh"] / lf, lu), "ac|geom|fuselage|S_wet": (s["fw"] / af, au)})
            for k in ("hstab", "vstab") + (("wing",) if o["include_wing"] else ()):
                ins.update({"ac|geom|%s|AR" % k: g[k]["AR"], "ac|geom|%s|taper" % k: g[k]["t"], "ac|geom|%s|toverc" % k: g[k]["tc"], "ac|geom|%s|S_ref" % k: (g[k]["S"] / af, au)})
        if take:
            ins["ac|aero|takeoff_flap_deg"] = (s["flap"], "deg")
            ins["ac|geom|wing|c4sweep"] = (np.degrees(s["sweep"]), "deg") if c["deg"] else (s["sweep"], "rad")
        setv(p, ins)
        p.run_model()
        Sw = g["wing"]["S"]
        fr = lambda L, lam: friction(L, U, rho, T, lam)  # noqa: E731
        ff = lambda tc: 1 + 2.7 * tc + 100 * tc**4  # noqa: E731
        CD = s["ne"] * o["FF_nacelle"] * fr(s["nl"], o["nacelle_laminar_frac"]) * s["nw"] / Sw
        if not bwb:
            d = s["fh"] / s["fl"]
            CD = CD + o["Q_fuselage"] * (1 + 2.2 * d + 3.8 * d**3) * fr(s["fl"], o["fuselage_laminar_frac"]) * s["fw"] / Sw
            for k in ("hstab", "vstab") + (("wing",) if o["include_wing"] else ()):
                x = g[k]
                Q = o["Q_wing"] if k == "wing" else o["Q_tail"]
                CD = CD + 2 * x["S"] / Sw * Q * ff(x["tc"]) * fr(mac(x["S"], x["AR"], x["t"]), o[k + "_laminar_frac"])
        if take:
            cf = o["flap_chord_frac"]
            CD = CD + (0.01 if bwb else 0.02) + o["Q_flap"] * o["wing_area_flapped_frac"] * np.cos(s["sweep"]) * (5.75e-4 * cf**2 - 7.45e-5 * cf + 1.23e-5) * s["flap"] ** 2
        close(gv(p, "CD0"), o["drag_fudge_factor"] * CD, 1e-8, 0, "CD0 (%s, %s)" % ("BWB" if bwb else "transport", c["conf"]))
    if c["opts"]:
        ctx.ok("conf=%s" % c["conf"])


@sub("C19", "transport_CD0", parasite(False), quick=700, thorough=20000, shards=4, rule="at least one option away from its default")
def t_jet(c, ctx):
    buildup(c, ctx)


@sub("C19", "BWB_CD0", parasite(True), quick=400, thorough=10000, shards=2, rule="at least one option away from its default")
def t_bwb(c, ctx):
    buildup(c, ctx)


# --------------------------------------------------------------- maximum lift and wave drag
@st.composite
def clmax(draw):
    one = lambda: dict(cl=draw(fl(0.8, 2.2)), sweep=draw(fl(-0.6, 0.8)), flap=draw(fl(0, 45)), tc=draw(fl(0.06, 0.2)), clean=draw(fl(0.6, 2)))  # noqa: E731
    return dict(sets=[one() for _ in range(draw(st.integers(1, 3)))], deg=draw(bools),
                opts={k: draw(s) for k, s in dict(flap_chord_frac=fl(0, 0.6), wing_area_flapped_frac=fl(0, 1), slat_chord_frac=fl(0, 0.4), slat_span_frac=fl(0, 1), fudge_factor=fl(0.3, 3)).items() if draw(bools)})


@sub("C19", "max_lift", clmax, quick=800, thorough=20000, shards=2, rule="flap deflected and at least one option away from its default")
def t_clmax(c, ctx):
    o = dict(dict(flap_chord_frac=0.2, wing_area_flapped_frac=0.9, slat_chord_frac=0.1, slat_span_frac=0.8, fudge_factor=1.0), **c["opts"])
    k = o["fudge_factor"]
    pc = build(CleanCLmax(**{a: b for a, b in c["opts"].items() if a == "fudge_factor"}))
    pf = build(FlapCLmax(**c["opts"]))
    for s in c["sets"]:
        sw = (np.degrees(s["sweep"]), "deg") if c["deg"] else (s["sweep"], "rad")
        cs = np.cos(s["sweep"])
        setv(pc, {"ac|aero|airfoil_Cl_max": s["cl"], "ac|geom|wing|c4sweep": sw})
        setv(pf, {"flap_extension": (s["flap"], "deg") if not c["deg"] else (np.radians(s["flap"]), "rad"), "ac|geom|wing|c4sweep": sw, "CL_max_clean": s["clean"], "ac|geom|wing|toverc": s["tc"]})
        pc.run_model()
        pf.run_model()
        close(gv(pc, "CL_max_clean"), 0.9 * k * s["cl"] * cs, 1e-9, 0, "clean CL max")
        t, d = s["tc"], s["flap"]
        base = 1 + t * (2.33 + t * (-77.9 + t * (1120 - 3430 * t)))
        k2 = 0.4 + 0.0234 * d - 0.000204 * d * d
        dcl = base * (4 * o["flap_chord_frac"]) * k2 * (1.36 * k2 - 0.389 * k2**2)
        fl_ = dcl * o["wing_area_flapped_frac"] * (1 - 0.08 * cs**2) * cs**0.75
        sl = 7.11 * o["slat_chord_frac"] * (o["slat_span_frac"] * cs) ** 2
        close(gv(pf, "CL_max_flap"), k * (s["clean"] + fl_ + sl), 1e-9, 0, "CL max with flaps and slats")
        if s["flap"] and c["opts"]:
            ctx.ok()


GX, GW = np.polynomial.legendre.leggauss(4)


@st.composite
def wave(draw):
    ns = draw(tail(2, 6, 12))
    n = draw(tail(1, 6, 16))
    a = draw(st.integers(0, ns - 2))
    b = draw(st.integers(a + 1, ns - 1))

    def one():
        dy = np.array(draw(arr(ns - 1, fl(0.2, 8.0))))
        return dict(y=[float(v) for v in -np.cumsum(dy[::-1])[::-1]], c=draw(arr(ns, fl(0.3, 9.0))), tc=draw(arr(ns, fl(0.06, 0.18))), M=draw(vec(n, 0.1, 1.1)), CL=draw(vec(n, -0.3, 1.2)), sweep=draw(fl(-20, 42)), S=draw(logfl(1, 900)), near=draw(bools))
    return dict(ns=ns, n=n, sel=draw(st.sampled_from(["all", "both", "start", "end"])), a=a, b=b, norm=draw(st.sampled_from([None, False, True])), tech=draw(st.one_of(st.none(), fl(0.85, 0.99))), sets=[one() for _ in range(draw(st.integers(1, 2)))],
                au=draw(st.sampled_from(AU)), lu=draw(st.sampled_from(LU)))


@sub("C19", "wave_drag", wave, quick=600, thorough=20000, shards=4, rule="a node above and a node below the critical Mach number, or a partial region")
def t_wave(c, ctx):
    ns, n = c["ns"], c["n"]
    lo, hi = (c["a"] if c["sel"] in ("both", "start") else 0), (c["b"] if c["sel"] in ("both", "end") else ns - 1)
    kw = dict(num_nodes=n, num_sections=ns)
    if c["sel"] in ("both", "start"):
        kw["idx_sec_start"] = c["a"]
    if c["sel"] in ("both", "end"):
        kw["idx_sec_end"] = c["b"]
    if c["norm"] is not None:
        kw["specify_area_norm"] = c["norm"]
    if c["tech"] is not None:
        kw["airfoil_tech_level"] = c["tech"]
    p = build(WaveDragFromSections(**kw))
    lu, lf = c["lu"]
    for s in c["sets"]:
        y, ch, tc = np.array(s["y"] + [0.0]), np.array(s["c"]), np.array(s["tc"])
        t = (GX + 1) / 2
        A = V = 0.0
        for k in range(lo, hi):
            w, cc = y[k + 1] - y[k], ch[k] + (ch[k + 1] - ch[k]) * t
            A += w * np.sum(GW / 2 * cc)
            V += w * np.sum(GW / 2 * cc * (tc[k] + (tc[k + 1] - tc[k]) * t))
        cs = np.cos(np.radians(s["sweep"]))
        CL, M = np.array(s["CL"]), np.array(s["M"])
        mcr = (0.95 if c["tech"] is None else c["tech"]) / cs - V / A / cs**2 - CL / (10 * cs**3) - (0.1 / 80) ** (1 / 3)
        if s["near"]:  # straddle the critical Mach number closely
            M = mcr + 0.02 * (M - 0.75)
        setv(p, {"fltcond|M": M, "fltcond|CL": CL, "toverc_sec": tc, "y_sec": (y[:-1] / lf, lu), "chord_sec": (ch / lf, lu), "c4sweep": (s["sweep"], "deg")})
        if c["norm"]:
            p.set_val("S_ref", s["S"] / c["au"][1], units=c["au"][0])
        p.run_model()
        got = gv(p, "CD_wave")
        x = np.maximum(M - mcr, 0)
        want = 2 * 20 * x**4  # OpenAeroStruct doubles the coefficient of a symmetric surface
        atol = 40 * ((x + 2e-6) ** 4 - x**4) + 1e-20  # resolution of the averaged thickness ratio
        need(np.all(got >= 0), "negative wave drag %s" % got)
        if c["norm"]:
            f = 2 * A / s["S"]
            try:
                close(got, want * f, 1e-9, atol * f, "wave drag normalised by the given area")
            except Exception:
                close(got, want / f, 1e-9, atol / f, "wave drag normalised by the given area")
                ctx.known("wavedrag-area-inverse", "specify_area_norm multiplies by S_ref/S_region")
        else:
            close(got, want, 1e-9, atol, "wave drag")
        if (np.any(x > 0) and np.any(x == 0)) or lo > 0 or hi < ns - 1:
            ctx.ok("norm=%s" % c["norm"])


# --------------------------------------------------------------- critical section maximum lift
@st.composite
def crit(draw):
    ny = draw(st.integers(3, 7))
    return dict(nx=draw(st.integers(1, 2)), ny=ny, vec=draw(bools), cl=draw(vec(ny, 1.0, 2.2)), S=draw(fl(20, 300)), AR=draw(fl(5, 14)), taper=draw(fl(0.2, 1)), sweep=draw(fl(0, 30)), M=draw(fl(0.1, 0.3)), h=draw(fl(0, 3000)), tc=draw(fl(0.08, 0.16)),
                rho=draw(st.sampled_from([None, 100, 300.0])))


@sub("C19", "critical_section", crit, quick=24, thorough=400, shards=8, rule="all converged cases", max_s=120)
def t_crit(c, ctx):
    nx, ny = c["nx"], c["ny"]
    p = om.Problem(reports=False)
    p.model.add_subsystem("mesh", TrapezoidalPlanformMesh(num_x=nx, num_y=ny), promotes_inputs=["*"], promotes_outputs=[("mesh", "ac|geom|wing|OAS_mesh")])
    kw = {} if c["rho"] is None else dict(rho=c["rho"])
    p.model.add_subsystem("cl", CLmaxCriticalSectionVLM(num_x=nx, num_y=ny, vec_Cl_max=c["vec"], **kw), promotes=["*"])
    p.setup(check=False)
    clm = np.array(c["cl"]) if c["vec"] else c["cl"][0]
    geo = {"S": c["S"], "AR": c["AR"], "taper": c["taper"], "sweep": (c["sweep"], "deg"), "fltcond|M": c["M"], "fltcond|h": (c["h"], "m")}
    setv(p, dict(geo, **{"ac|aero|airfoil_Cl_max": clm, "ac|geom|wing|toverc": np.full(ny, c["tc"])}))
    p.model.cl.nonlinear_solver.options["iprint"] = -1
    p.model.cl.nonlinear_solver.options["maxiter"] = 20
    p.run_model()
    rho = 200.0 if c["rho"] is None else c["rho"]
    # independent evaluation at the angle of attack found
    q = om.Problem(reports=False)
    q.model.add_subsystem("mesh", TrapezoidalPlanformMesh(num_x=nx, num_y=ny), promotes_inputs=["*"], promotes_outputs=[("mesh", "ac|geom|wing|OAS_mesh")])
    q.model.add_subsystem("v", VLM(num_x=nx, num_y=ny), promotes=["*"])
    q.setup(check=False)
    setv(q, dict(geo, **{"ac|geom|wing|toverc": np.full(ny, c["tc"]), "fltcond|alpha": (gv(p, "VLM.fltcond|alpha", "deg"), "deg")}))
    q.run_model()
    cl = gv(q, "sectional_CL")
    g = np.ravel(cl) - clm
    m = np.max(g)
    ks = m + np.log(np.sum(np.exp(rho * (g - m)))) / rho
    if abs(ks) > 1e-6:
        R = gv(p, "max_limit.KS")
        if abs(R[0]) > 1e-8:
            ctx.skipped = True
            return
    close(ks, 0.0, 0, 1e-6, "aggregated margin to the sectional maximum lift at the solution")
    need(-np.log(ny) / rho - 1e-6 <= m <= 1e-6, "largest sectional margin %g outside the aggregation band" % m)
    close(gv(p, "CL_max"), gv(q, "fltcond|CL"), 1e-7, 0, "CL max")
    ctx.ok("vec=%s" % c["vec"])
