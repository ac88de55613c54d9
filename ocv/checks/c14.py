"""C14: heat exchangers and ducts."""
import math
import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

from ..core import sub, need
from ..lib import fl, logfl, arr, bools, gv, close, build, raises, sfl, setv, tail
from ..solve import newton, solve, NotConverged
from openconcept.thermal import ExplicitIncompressibleDuct, ImplicitCompressibleDuct, ImplicitCompressibleDuct_ExternalHX, HXGroup
from openconcept.thermal import ducts as D
from openconcept.thermal import heat_exchanger as H

TT = st.one_of(fl(200.0, 500.0), fl(50.0, 1500.0))
PP = st.one_of(logfl(1e4, 3e5), logfl(10.0, 3e6))
MM = fl(0.0, 0.99)
GAM = st.one_of(st.none(), fl(1.1, 1.67))
RG = st.one_of(st.none(), fl(150.0, 450.0))


def opt(**kw):
    return {k: v for k, v in kw.items() if v is not None}


def isen_T(M, g):
    """Total over static temperature."""
    return 1 + (g - 1) / 2 * M * M


def isen_p(M, g):
    return isen_T(M, g) ** (g / (g - 1))


# ------------------------------------------------------------------ gas relations
@st.composite
def gas(draw):
    n = draw(tail(1, 5, 16))
    return dict(n=n, T=draw(arr(n, TT)), p=draw(arr(n, PP)), M=draw(arr(n, st.one_of(st.just(0.0), fl(0.0, 1.0), fl(0.0, 4.0)))), U=draw(arr(n, st.one_of(st.just(0.0), fl(0.0, 600.0)))), g=draw(GAM), R=draw(RG),
                r=draw(arr(n, st.one_of(fl(0.05, 0.9999), fl(0.45, 0.6), fl(0.99, 1.0)))), A=draw(arr(n, logfl(1e-3, 5.0))), neg=draw(st.sampled_from([None, None, 0, -1.0, -300.0])), z=draw(st.integers(0, 4)))


@sub("C14", "gas_relations", gas, quick=350, thorough=8000, shards=4, rule="several nodes with different Mach numbers")
def t_gas(c, ctx):
    n, g, R = c["n"], c["g"] or 1.4, c["R"] or 287.05
    T, p, M, U, r, A = (np.array(c[k]) for k in ("T", "p", "M", "U", "r", "A"))
    og, oR = opt(gamma=c["g"]), opt(R=c["R"])

    def one(cls, ins, out, **o):
        q = build(cls(num_nodes=n, **o), ins)
        q.run_model()
        return gv(q, out[0], out[1])

    Tt = one(D.TotalTemperatureIsentropic, {"T": (T, "K"), "M": M}, ("Tt", "K"), **og)
    close(Tt, T * isen_T(M, g), 1e-12, 0, "total temperature")
    close(one(D.TemperatureIsentropic, {"Tt": (Tt, "K"), "M": M}, ("T", "K"), **og), T, 1e-12, 0, "static temperature inverts total")
    pt = one(D.TotalPressureIsentropic, {"p": (p, "Pa"), "M": M}, ("pt", "Pa"), **og)
    close(pt, p * isen_p(M, g), 1e-11, 0, "total pressure")
    close(one(D.PressureIsentropic, {"pt": (pt, "Pa"), "M": M}, ("p", "Pa"), **og), p, 1e-11, 0, "static pressure inverts total")
    rho = one(D.DensityIdealGas, {"p": (p, "Pa"), "T": (T, "K")}, ("rho", "kg/m**3"), **oR)
    close(rho * R * T, p, 1e-12, 0, "ideal gas")
    a = one(D.SpeedOfSound, {"T": (T, "K")}, ("a", "m/s"), **og, **oR)
    close(a * a, g * R * T, 1e-12, 0, "speed of sound")
    close(one(D.MachNumberfromSpeed, {"a": (a, "m/s"), "Utrue": (U, "m/s")}, ("M", None)) * a, U, 1e-12, 1e-12, "Mach number")
    close(one(D.MassFlow, {"a": (a, "m/s"), "area": (A, "m**2"), "rho": (rho, "kg/m**3"), "M": M}, ("mdot", "kg/s")), rho * A * M * a, 1e-12, 0, "mass flow")
    # exit Mach number: choked exactly when the pressure ratio is at most critical
    crit = (2 / (g + 1)) ** (g / (g - 1))
    Me = one(D.DuctExitMachNumber, {"nozzle_pressure_ratio": r}, ("M", None), **og)
    for ri, mi in zip(r, Me):
        if ri <= crit:
            need(mi == 1.0, "pressure ratio %r <= critical %r but exit Mach %r", ri, crit, mi)
        else:
            need(mi < 1.0 + 1e-12, "pressure ratio %r above critical %r but exit Mach %r", ri, crit, mi)
            close(1 / isen_p(mi, g), ri, 1e-10, 0, "unchoked nozzle expands to the exit pressure")
    if c["neg"] is not None:
        rb = r.copy()
        rb[c["z"] % n] = c["neg"]
        raises(lambda: one(D.DuctExitMachNumber, {"nozzle_pressure_ratio": rb}, ("M", None)), "pressure ratio %r" % c["neg"], ValueError)
    if n > 1 and len(set(c["M"])) > 1:
        ctx.ok("choked" if np.any(r <= crit) else "unchoked")


# ------------------------------------------------------------------ single duct components
@st.composite
def ductc(draw):
    n = draw(tail(1, 5, 16))
    return dict(n=n, U=draw(arr(n, st.one_of(st.just(0.0), fl(0.0, 40.0), fl(40.0, 300.0), fl(0.0, 400.0)))), rho=draw(arr(n, logfl(0.01, 5.0))), A=draw(arr(n, logfl(1e-4, 5.0))), dp=draw(arr(n, st.one_of(st.just(0.0), sfl(1500.0), sfl(5e4)))),
                lf=draw(st.one_of(st.none(), fl(0.0, 1.0))), cfg=draw(st.one_of(st.none(), fl(0.5, 1.0))), Tt=draw(arr(n, TT)), pt=draw(arr(n, PP)), md=draw(arr(n, logfl(0.01, 20.0))),
                As=draw(logfl(0.005, 1.0)), lfd=draw(fl(0.0, 2.0)), rec=draw(arr(n, fl(0.5, 1.0))), q=draw(arr(n, sfl(1e5))), cp=draw(fl(700.0, 1500.0)), p=draw(arr(n, PP)),
                bad=draw(st.sampled_from([None, None, None, 0.0, -1.0])), z=draw(st.integers(0, 4)), conv=draw(bools))


@sub("C14", "duct_components", ductc, quick=500, thorough=10000, shards=4, rule="several nodes; forward duct flow at some node")
def t_ductc(c, ctx):
    n = c["n"]
    U, rho, A, dp, Tt, pt, md, rec, q, p = (np.array(c[k]) for k in ("U", "rho", "A", "dp", "Tt", "pt", "md", "rec", "q", "p"))
    # incompressible duct: Bernoulli with a loss factor
    b = build(ExplicitIncompressibleDuct(num_nodes=n, **opt(static_pressure_loss_factor=c["lf"], gross_thrust_factor=c["cfg"])),
              {"fltcond|Utrue": (U, "m/s"), "fltcond|rho": (rho, "kg/m**3"), "area_nozzle": (A, "m**2"), "delta_p_hex": (dp, "Pa")})
    b.run_model()
    lf, cfg = (0.15 if c["lf"] is None else c["lf"]), (0.98 if c["cfg"] is None else c["cfg"])
    m, drag = gv(b, "mdot", "kg/s"), gv(b, "drag", "N")
    e = rho * U**2 / 2 + dp
    ve = m / rho / A
    for i in range(n):
        if e[i] > 1e-3:
            close(rho[i] * ve[i] ** 2 / 2 * (1 + lf), e[i], 1e-9, 0, "Bernoulli balance of the incompressible duct")
        elif e[i] < -1e-3:
            need(0 <= m[i] < 1e-3, "no forward flow possible but mdot = %r", m[i])
    close(drag, m * U - cfg * m * ve, 1e-9, 1e-9, "momentum drag")
    fwd = np.any(e > 1)
    # heat addition and pressure loss
    ins = {"Tt_in": (Tt, "K"), "pt_in": (pt, "Pa"), "mdot": (md, "kg/s"), "rho": (rho, "kg/m**3"), "area": (c["As"], "m**2"), "delta_p": (dp, "Pa"), "dynamic_pressure_loss_factor": c["lfd"],
           "pressure_recovery": rec, "heat_in": (q, "W"), "cp": (c["cp"], "J/kg/K")}
    b = build(D.HeatAdditionPressureLoss(num_nodes=n), ins)
    dynp = 0.5 * md**2 / rho / c["As"] ** 2
    want = pt * rec + dp - c["lfd"] * dynp
    if np.max(want) < 1e8:
        b.run_model()
        close(md * c["cp"] * (gv(b, "Tt_out", "K") - Tt), q, 1e-9, 1e-6, "heat addition raises the total enthalpy flow")
        close(gv(b, "pt_out", "Pa"), want, 1e-10, 1e-9 * np.max(pt + np.abs(dp) + c["lfd"] * dynp), "total pressure change")
        if c["bad"] is not None:
            mb = md.copy()
            mb[c["z"] % n] = c["bad"]
            b.set_val("mdot", mb, units="kg/s")
            raises(b.run_model, "mass flow %r" % c["bad"], ValueError)
    b = build(D.NozzlePressureLoss(num_nodes=n), {"pt_in": (pt, "Pa"), "mdot": (md, "kg/s"), "rho": (rho, "kg/m**3"), "area": (A, "m**2"), "dynamic_pressure_loss_factor": c["lfd"]})
    b.run_model()
    dn = 0.5 * md**2 / rho / A**2 * c["lfd"]
    close(gv(b, "pt", "Pa"), pt - dn, 1e-10, 1e-9 * np.max(pt + dn), "nozzle total pressure loss")
    b = build(D.NetForce(num_nodes=n, **opt(cfg=c["cfg"])), {"mdot": (md, "kg/s"), "Utrue_inf": (U, "m/s"), "p_inf": (p, "Pa"), "area_nozzle": (A, "m**2"), "p_nozzle": (pt, "Pa"),
                                                            "rho_nozzle": (rho, "kg/m**3")})
    b.run_model()
    vn = md / rho / A
    close(gv(b, "F_net", "N"), cfg * (md * vn + A * (pt - p)) - md * U, 1e-9, 1e-9 * np.max(A * (pt + p) + md * (U + vn)), "net force")
    # implicit relations: residuals vanish exactly at the solution, and solving finds it
    a = np.sqrt(1.4 * 287.05 * Tt)
    Mx = np.clip(md / (rho * c["As"] * a), 0.02, 0.95)
    ms = Mx * rho * c["As"] * a
    b = build(D.MachNumberDuct(num_nodes=n), {"mdot": (ms, "kg/s"), "a": (a, "m/s"), "area": (c["As"], "m**2"), "rho": (rho, "kg/m**3")}, solver=newton())
    solve(b)
    close(gv(b, "M"), Mx, 1e-8, 1e-9, "duct Mach number from mass flow")
    r = np.clip(p / pt, 0.02, 0.98)
    b = build(D.DuctExitPressureRatioImplicit(num_nodes=n), {"p_exit": (r * pt, "Pa"), "pt": (pt, "Pa")}, solver=newton())
    solve(b)
    close(gv(b, "nozzle_pressure_ratio"), r, 1e-9, 0, "nozzle pressure ratio")
    if n > 1 and fwd:
        ctx.ok()


# ------------------------------------------------------------------ whole compressible ducts
@st.composite
def whole(draw):
    n = draw(st.integers(1, 4))
    ext = draw(bools)
    return dict(n=n, ext=ext, M=draw(arr(n, fl(0.4, 0.85))), T=draw(arr(n, fl(215.0, 300.0))), p=draw(arr(n, fl(2.6e4, 1.0e5))), A1=draw(fl(150.0, 250.0)), A2=draw(fl(250.0, 500.0)), An=draw(arr(n, fl(20.0, 90.0))),
                rec=draw(arr(3, arr(n, fl(0.985, 1.0)))), q=draw(arr(3, arr(n, fl(0.0, 2e4)))), dp=draw(arr(3, arr(n, fl(-150.0, 0.0)))), lf=draw(arr(4, fl(0.0, 0.3))), hack=draw(st.one_of(st.none(), fl(-40.0, 0.0))),
                cfg=draw(st.one_of(st.none(), fl(0.8, 1.0))), eta=draw(st.one_of(st.none(), arr(n, fl(0.95, 1.0)))), hot=draw(arr(n, fl(0.05, 0.3))), Th=draw(arr(n, fl(310.0, 360.0))), rh=draw(arr(n, fl(900.0, 1100.0))), fan=draw(st.one_of(st.none(), fl(0.0, 0.8))),
                nw=draw(fl(300.0, 600.0)), cp=draw(st.one_of(st.none(), fl(950.0, 1050.0))))


def gas_at(M, Tt, pt):
    T, p = Tt / isen_T(M, 1.4), pt / isen_p(M, 1.4)
    return T, p, p / (287.05 * T), np.sqrt(1.4 * 287.05 * T)


@sub("C14", "compressible_duct", whole, quick=200, thorough=5000, shards=8, max_s=70, rule="converged")
def t_whole(c, ctx):
    n = c["n"]
    cls = ImplicitCompressibleDuct_ExternalHX if c["ext"] else ImplicitCompressibleDuct
    p = om.Problem(reports=False)
    p.model = cls(num_nodes=n, **opt(cfg=c["cfg"]))
    m = p.model
    m.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, maxiter=40, atol=1e-9, rtol=1e-13, iprint=-1, err_on_non_converge=True)
    m.nonlinear_solver.options["max_sub_solves"] = 10
    m.nonlinear_solver.options["reraise_child_analysiserror"] = False
    m.nonlinear_solver.linesearch = om.BoundsEnforceLS(bound_enforcement="scalar", iprint=-1)
    m.linear_solver = om.DirectSolver(assemble_jac=True)
    p.setup(check=False)
    T, ps, M0 = (np.array(c[k]) for k in ("T", "p", "M"))
    U = M0 * np.sqrt(1.4 * 287.05 * T)
    An = np.array(c["An"]) * 0.0254**2
    ins = {"p_inf": (ps, "Pa"), "T_inf": (T, "K"), "Utrue": (U, "m/s"), "area_1": (c["A1"], "inch**2"), ("area_nozzle_in" if c["ext"] else "area_nozzle"): (An, "m**2"),
           "loss_factor_1": c["lf"][0], "sta2.dynamic_pressure_loss_factor": c["lf"][1], "sta3.dynamic_pressure_loss_factor": c["lf"][2], "nozzle.dynamic_pressure_loss_factor": c["lf"][3]}
    for k in (1, 2, 3):
        ins["pressure_recovery_%d" % k] = c["rec"][k - 1]
        if k < 3:
            ins["heat_in_%d" % k] = (c["q"][k - 1], "W")
            ins["delta_p_%d" % k] = (c["dp"][k - 1], "Pa")
    dp1 = np.array(c["dp"][0]) + (0 if c["fan"] is None else c["fan"] * ps)
    ins["delta_p_1"] = (dp1, "Pa")
    if c["hack"] is not None:
        ins["convergence_hack"] = (c["hack"], "Pa")
    if c["cp"] is not None:
        ins["cp"] = (c["cp"], "J/kg/K")
    if c["eta"] is not None:
        ins["inlet.totalpressure.eta_ram"] = c["eta"]
    if c["ext"]:
        ins.update(area_2=(c["A2"], "inch**2"), area_3=(c["A2"] * 1.1, "inch**2"))
        ins["sta3.heat_in"], ins["sta3.delta_p"] = (c["q"][2], "W"), (c["dp"][2], "Pa")
    else:
        ins.update(mdot_hot=(c["hot"], "kg/s"), T_in_hot=(c["Th"], "K"), rho_hot=(c["rh"], "kg/m**3"))
        ins["ac|propulsion|thermal|hx|n_wide_cold"] = c["nw"]
    setv(p, ins)
    p.set_val("mdot", 0.6 * An * U * ps / 287.05 / T, units="kg/s")
    for s, A in (("sta1", c["A1"]), ("sta2", 3 * c["A2"]), ("sta3", 3 * c["A2"])):
        p.set_val(s + ".M", np.minimum(0.4, 0.6 * np.array(c["An"]) * M0 / A))
    try:
        solve(p)
    except RuntimeError as e:  # the Newton iterates of an infeasible duct run into NaN
        if "NaN" not in str(e) and "singular" not in str(e).lower():
            raise
        ctx.skipped = True
        return
    except (NotConverged, ValueError):
        ctx.skipped = True
        return
    if not np.all(np.isfinite(p.model._outputs.asarray())):
        ctx.skipped = True
        return
    md = gv(p, "mdot", "kg/s")
    cp = c["cp"] or 1002.93
    tol = 1e-7
    Tt, pt = T * isen_T(M0, 1.4), ps * isen_p(M0, 1.4) * (1 if c["eta"] is None else np.array(c["eta"]))
    close(gv(p, "inlet.Tt", "K"), Tt, tol, 0, "inlet total temperature")
    close(gv(p, "inlet.pt", "Pa"), pt, tol, 0, "inlet total pressure")
    if c["ext"]:
        areas = [c["A1"], c["A2"], 1.1 * c["A2"]]
        areas = [a * 0.0254**2 for a in areas]
        heat, dps = c["q"], [dp1, c["dp"][1], c["dp"][2]]
    else:
        A2 = float(gv(p, "hx.frontal_area", "m**2")[0])
        areas = [c["A1"] * 0.0254**2, A2, A2]
        heat = [c["q"][0], c["q"][1], gv(p, "hx.heat_transfer", "W")]
        dps = [dp1, c["dp"][1], gv(p, "hx.delta_p_cold", "Pa")]
    h0 = md * cp * Tt
    stat = []
    for k in range(3):
        s = "sta%d." % (k + 1)
        M = gv(p, s + "M")
        Tt_o, pt_o = gv(p, s + "Tt_out", "K"), gv(p, s + "pt_out", "Pa")
        Ts, pss, rho, a = gas_at(M, Tt_o, pt_o)
        close(Tt_o, Tt + np.array(heat[k]) / md / cp, tol, 0, s + " total temperature")
        close(pt_o, pt * np.array(c["rec"][k]) + np.array(dps[k]) - c["lf"][k] * 0.5 * md**2 / rho / areas[k] ** 2, tol, 1e-3, s + " total pressure")
        close(gv(p, s + "T", "K"), Ts, tol, 0, s + " static temperature")
        close(gv(p, s + "p", "Pa"), pss, tol, 0, s + " static pressure")
        close(gv(p, s + "rho", "kg/m**3"), rho, tol, 0, s + " density")
        close(rho * a * M * areas[k], md, 1e-6, 1e-8, s + " continuity")
        need(np.all((M > 0) & (M < 1)), s + " Mach %s", M)
        Tt, pt = Tt_o, pt_o
        stat.append((Ts, pss, rho))
    close(md * cp * Tt - h0, np.sum([np.array(h) for h in heat], axis=0), 1e-6, 1e-5 * np.max(h0), "energy: all heat shows up in the exit total enthalpy")
    # nozzle
    pe = ps + (c["hack"] if c["hack"] is not None else (-40.0 if c["ext"] else -20.0))
    Mn, rn, pn = gv(p, "nozzle.M"), gv(p, "nozzle.rho", "kg/m**3"), gv(p, "nozzle.p", "Pa")
    ptn = pt - c["lf"][3] * 0.5 * md**2 / rn / An**2
    crit = (2 / 2.4) ** 3.5
    for i in range(n):
        if pe[i] / ptn[i] < crit * (1 - 1e-6):
            need(Mn[i] == 1.0, "choked nozzle has exit Mach %r (pressure ratio %r)", Mn[i], pe[i] / ptn[i])
        elif pe[i] / ptn[i] > crit * (1 + 1e-6):
            close(pn[i], pe[i], 1e-6, 0, "unchoked nozzle discharges at the exit pressure")
            need(Mn[i] < 1, "unchoked nozzle with Mach %r", Mn[i])
    Tn, pnn, rho, a = gas_at(Mn, Tt, ptn)
    close(pn, pnn, tol, 0, "nozzle static pressure")
    close(rn, rho, tol, 0, "nozzle density")
    close(rho * a * Mn * An, md, 1e-6, 1e-8, "mass flow conserved through the nozzle")
    cfg = 0.98 if c["cfg"] is None else c["cfg"]
    close(gv(p, "force.F_net", "N"), cfg * (md * a * Mn + An * (pn - ps)) - md * U, 1e-5, 1e-5 * np.max(md * U + An * ps), "net force")
    if not c["ext"]:
        close(gv(p, "hx.T_in_cold", "K"), stat[1][0], tol, 0, "heat exchanger cold inlet temperature")
        close(gv(p, "hx.rho_cold", "kg/m**3"), stat[1][2], tol, 0, "heat exchanger cold inlet density")
        close(np.array(c["hot"]) * 3801.0 * (np.array(c["Th"]) - gv(p, "T_out_hot", "K")), heat[2], 1e-6, 1e-3, "hot stream loses the heat the air gains")
    ctx.ok(("ext" if c["ext"] else "hx") + ("/choked" if np.any(Mn == 1.0) else ""))


# ------------------------------------------------------------------ heat exchanger
GEO = dict(channel_width_hot=(5e-4, 5e-3), channel_height_hot=(5e-4, 1e-2), fin_length_hot=(2e-3, 2e-2), channel_width_cold=(5e-4, 5e-3), channel_height_cold=(2e-3, 3e-2), fin_length_cold=(2e-3, 2e-2),
           fin_thickness=(5e-5, 4e-4), plate_thickness=(1e-4, 1e-3), case_thickness=(5e-4, 5e-3), n_wide_cold=(20, 800), n_long_cold=(1, 30), n_tall=(3, 60), material_rho=(1500.0, 9000.0))
FLU = dict(cp_cold=(900.0, 1100.0), k_cold=(0.015, 0.04), mu_cold=(1e-5, 3e-5), cp_hot=(1500.0, 4500.0), k_hot=(0.1, 0.7), mu_hot=(3e-4, 5e-3), material_k=(10.0, 400.0))
UN = dict(channel_width_hot="m", channel_height_hot="m", fin_length_hot="m", channel_width_cold="m", channel_height_cold="m", fin_length_cold="m", fin_thickness="m", plate_thickness="m", case_thickness="m",
          material_rho="kg/m**3", cp_cold="J/kg/K", cp_hot="J/kg/K", k_cold="W/m/K", k_hot="W/m/K", mu_cold="kg/m/s", mu_hot="kg/m/s", material_k="W/m/K")


def geometry(g):
    """Offset strip fin core: counts, areas and volumes from the bill of parts."""
    tf, tp, tc, nt = g["fin_thickness"], g["plate_thickness"], g["case_thickness"], g["n_tall"]
    wc, hc, lc, wh, hh, lh = (g[k] for k in ("channel_width_cold", "channel_height_cold", "fin_length_cold", "channel_width_hot", "channel_height_hot", "fin_length_hot"))
    height = nt * (hc + hh + 2 * tf + 2 * tp)
    width = g["n_wide_cold"] * (wc + tf)
    length = g["n_long_cold"] * lc
    o = dict(height_overall=height, width_overall=width, length_overall=length, frontal_area=width * height)
    for s, w, h, l, across, along in (("cold", wc, hc, lc, width, length), ("hot", wh, hh, lh, length, width)):
        cells = nt * across / (w + tf)
        o["xs_area_" + s] = cells * w * h
        o["heat_transfer_area_" + s] = cells * along * 2 * (w + h)
        o["fin_area_ratio_" + s] = h / (w + h)
        o["contraction_ratio_" + s] = cells * w * h / (height * across)
        o["alpha_" + s], o["delta_" + s], o["gamma_" + s] = w / h, tf / l, tf / w
        o["_fin_" + s] = cells * along * (w + h + tf) * tf
    o["dh_cold"] = 4 * wc * hc * lc / (2 * (wc * lc + hc * lc + tf * hc) + tf * wc)
    o["dh_hot"] = 4 * wh * hh / (2 * (wh + hh))
    o["component_weight"] = g["material_rho"] * (nt * 2 * tp * length * width + o["_fin_cold"] + o["_fin_hot"] + tc * length * 2 * (width + height))
    return o


def manglik(Re, a, d, g):
    j = 0.6522 * Re**-0.5403 * a**-0.1541 * d**0.1499 * g**-0.0678 * (1 + 5.269e-5 * Re**1.34 * a**0.504 * d**0.456 * g**-1.055) ** 0.1
    f = 9.6243 * Re**-0.7422 * a**-0.1856 * d**0.3053 * g**-0.2659 * (1 + 7.669e-8 * Re**4.429 * a**0.92 * d**3.767 * g**0.236) ** 0.1
    return j, f


@st.composite
def hx(draw):
    n = draw(tail(1, 5, 12))
    c = dict(n=n, geo={k: draw(logfl(*v)) for k, v in GEO.items()}, flu={k: draw(fl(*v)) for k, v in FLU.items()}, mc=draw(arr(n, logfl(0.05, 20.0))), mh=draw(arr(n, logfl(0.01, 60.0))), rc=draw(arr(n, fl(0.2, 1.5))),
             rh=draw(arr(n, fl(800.0, 1200.0))), Tc=draw(arr(n, fl(230.0, 320.0))), Th=draw(arr(n, fl(240.0, 380.0))), defaults=draw(st.sampled_from([False, False, True])),
             ff=draw(arr(2, st.one_of(st.just(0.0), logfl(1e-5, 5e-3)))), K=draw(st.one_of(st.none(), arr(4, fl(-0.5, 0.8)))), eta=draw(arr(2, arr(n, fl(0.2, 1.0)))), h=draw(arr(2, arr(n, logfl(1.0, 3e4)))),
             ntu=draw(arr(n, st.one_of(logfl(0.01, 100.0), fl(0.2, 5.0)))), cr=draw(arr(n, st.one_of(st.just(1.0), fl(0.01, 1.0), logfl(1e-6, 1.0)))), hgt=draw(arr(2, logfl(1e-4, 0.1))), tf=draw(logfl(2e-5, 2e-3)), k=draw(logfl(1.0, 500.0)), ar=draw(arr(2, fl(0.0, 1.0))),
             UA=draw(arr(n, logfl(10.0, 1e5))), A=draw(arr(2, logfl(0.1, 100.0))))
    return c


@sub("C14", "heat_exchanger", hx, quick=400, thorough=12000, shards=6, rule="effectiveness between 0.05 and 0.99 at some node")
def t_hx(c, ctx):
    n = c["n"]
    mc, mh, rc, rh, Tc, Th = (np.array(c[k]) for k in ("mc", "mh", "rc", "rh", "Tc", "Th"))
    geo, flu = dict(c["geo"]), dict(c["flu"])
    b = build(H.OffsetStripFinGeometry(), {k: ((v, UN[k]) if k in UN else v) for k, v in geo.items()})
    b.run_model()
    o = geometry(geo)
    for k, v in o.items():
        if not k.startswith("_"):
            close(gv(b, k), v, 1e-9, 0, "geometry " + k)
    # the whole exchanger
    ins = {"mdot_cold": (mc, "kg/s"), "mdot_hot": (mh, "kg/s"), "rho_cold": (rc, "kg/m**3"), "rho_hot": (rh, "kg/m**3"), "T_in_cold": (Tc, "K"), "T_in_hot": (Th, "K")}
    if c["defaults"]:
        geo = dict(channel_width_hot=1e-3, channel_height_hot=1e-3, fin_length_hot=6e-3, channel_width_cold=1.35e-3, channel_height_cold=14e-3, fin_length_cold=6e-3, fin_thickness=0.102e-3, plate_thickness=0.2e-3,
                   case_thickness=2e-3, n_wide_cold=430, n_long_cold=3, n_tall=19, material_rho=2700.0)
        flu = dict(cp_cold=1005.0, k_cold=0.02596, mu_cold=1.789e-5, cp_hot=3801.0, k_hot=0.405, mu_hot=1.68e-3, material_k=190.0)
        o = geometry(geo)
    else:
        for k, v in list(geo.items()) + list(flu.items()):
            ins[("ac|propulsion|thermal|hx|" + k) if k.startswith("n_") else k] = (v, UN[k]) if k in UN else v
    b = build(HXGroup(num_nodes=n), ins)
    b.run_model()
    side = {}
    for s, m in (("cold", mc), ("hot", mh)):
        Re = m * o["dh_" + s] / o["xs_area_" + s] / flu["mu_" + s]
        j, f = manglik(Re, o["alpha_" + s], o["delta_" + s], o["gamma_" + s])
        Nu = j * Re * (flu["cp_" + s] * flu["mu_" + s] / flu["k_" + s]) ** (1 / 3)
        h = Nu * flu["k_" + s] / o["dh_" + s]
        mL = np.sqrt(2 * h / flu["material_k"] / geo["fin_thickness"]) * geo["channel_height_" + s] / 2
        eta = 1 - o["fin_area_ratio_" + s] * (1 - np.tanh(mL) / mL)
        need(np.all((eta > 0) & (eta <= 1)), "fin efficiency")
        for nm, v in (("Re_dh_", Re), ("j_", j), ("f_", f), ("Nu_dh_", Nu), ("h_conv_", h), ("eta_overall_", eta)):
            close(gv(b, nm + s), v, 1e-8, 0, nm + s)
        side[s] = (h, eta, f)
    UA = 1 / sum(1 / (side[s][0] * side[s][1] * o["heat_transfer_area_" + s]) for s in side)
    Cc, Ch = mc * flu["cp_cold"], mh * flu["cp_hot"]
    Cmin, Cmax = np.minimum(Cc, Ch), np.maximum(Cc, Ch)
    ntu, cr = UA / Cmin, Cmin / Cmax
    eff = 1 - np.exp(ntu**0.22 / cr * np.expm1(-cr * ntu**0.78))
    close(gv(b, "UA_overall", "W/K"), UA, 1e-8, 0, "overall conductance")
    close(gv(b, "NTU"), ntu, 1e-8, 0, "transfer units")
    close(gv(b, "C_ratio"), cr, 1e-10, 0, "capacity ratio")
    close(gv(b, "effectiveness"), eff, 1e-8, 1e-9, "effectiveness")
    q, qm = gv(b, "heat_transfer", "W"), gv(b, "heat_max", "W")
    close(qm, Cmin * (Th - Tc), 1e-9, 1e-7 * np.max(Cmin), "ideal maximum")
    need(np.all(np.abs(q) <= np.abs(qm) * (1 + 1e-12)), "heat %s above ideal maximum %s", q, qm)
    close(q, eff * qm, 1e-8, 1e-7 * np.max(Cmin), "heat transferred")
    Tco, Tho = gv(b, "T_out_cold", "K"), gv(b, "T_out_hot", "K")
    close(Cc * (Tco - Tc), q, 1e-8, 1e-8 * np.max(Cc), "heat into the cold stream")
    close(Ch * (Th - Tho), q, 1e-8, 1e-8 * np.max(Ch), "heat out of the hot stream")
    for s, m, r, L in (("cold", mc, rc, o["length_overall"]), ("hot", mh, rh, o["width_overall"])):
        qd = 0.5 * (m / o["xs_area_" + s]) ** 2 / r
        close(gv(b, "delta_p_" + s, "Pa"), -qd * (0.3 - 0.1 + 4 * L * side[s][2] / o["dh_" + s]), 1e-8, 0, "pressure drop " + s)
    for k in ("component_weight", "frontal_area", "length_overall"):
        close(gv(b, k), o[k], 1e-9, 0, k)
    # pieces with their own options: fouling on each side, loss coefficients
    u = build(H.UAOverall(num_nodes=n, fouling_factor_cold=c["ff"][0], fouling_factor_hot=c["ff"][1]),
              {"h_conv_cold": (c["h"][0], "W/m**2/K"), "h_conv_hot": (c["h"][1], "W/m**2/K"), "heat_transfer_area_cold": (c["A"][0], "m**2"), "heat_transfer_area_hot": (c["A"][1], "m**2"),
               "eta_overall_cold": c["eta"][0], "eta_overall_hot": c["eta"][1]})
    u.run_model()
    R = sum((1 / np.array(c["h"][i]) + c["ff"][i]) / (np.array(c["eta"][i]) * c["A"][i]) for i in (0, 1))
    close(gv(u, "UA_overall", "W/K") * R, 1.0, 1e-9, 0, "conductance with fouling on both sides")
    K = c["K"]
    u = build(H.PressureDrop(num_nodes=n, **({} if K is None else dict(Kc_cold=K[0], Ke_cold=K[1], Kc_hot=K[2], Ke_hot=K[3]))),
              {"length_overall": (1.3, "m"), "width_overall": (0.4, "m"), "f_cold": c["eta"][0], "f_hot": c["eta"][1], "mdot_cold": (mc, "kg/s"), "mdot_hot": (mh, "kg/s"), "rho_cold": (rc, "kg/m**3"),
               "rho_hot": (rh, "kg/m**3"), "dh_cold": (3e-3, "m"), "dh_hot": (1e-3, "m"), "xs_area_cold": (c["A"][0], "m**2"), "xs_area_hot": (c["A"][1], "m**2")})
    u.run_model()
    K = K or [0.3, -0.1, 0.3, -0.1]
    for i, (s, m, r, L, dh) in enumerate((("cold", mc, rc, 1.3, 3e-3), ("hot", mh, rh, 0.4, 1e-3))):
        close(gv(u, "delta_p_" + s, "Pa"), -0.5 * (m / c["A"][i]) ** 2 / r * (K[2 * i] + K[2 * i + 1] + 4 * L * np.array(c["eta"][i]) / dh), 1e-9, 0, "pressure drop " + s)
    # fins of any efficiency, transfer units and capacity ratios of any size
    u = build(H.FinEfficiency(num_nodes=n), {"h_conv_cold": (c["h"][0], "W/m**2/K"), "h_conv_hot": (c["h"][1], "W/m**2/K"), "fin_area_ratio_cold": c["ar"][0], "fin_area_ratio_hot": c["ar"][1],
                                             "channel_height_cold": (c["hgt"][0], "m"), "channel_height_hot": (c["hgt"][1], "m"), "fin_thickness": (c["tf"], "m"), "material_k": (c["k"], "W/m/K")})
    u.run_model()
    for i, s in enumerate(("cold", "hot")):
        mL = np.sqrt(2 * np.array(c["h"][i]) / c["k"] / c["tf"]) * c["hgt"][i] / 2
        close(gv(u, "eta_overall_" + s), 1 - c["ar"][i] * (1 - np.tanh(mL) / mL), 1e-9, 1e-12, "surface efficiency " + s)
    ntu, cr = np.array(c["ntu"]), np.array(c["cr"])
    u = build(H.CrossFlowNTUEffectiveness(num_nodes=n), {"NTU": ntu, "C_ratio": cr})
    u.run_model()
    e = gv(u, "effectiveness")
    close(e, -np.expm1(ntu**0.22 / cr * np.expm1(-cr * ntu**0.78)), 1e-8, 1e-9, "cross-flow effectiveness")
    need(np.all((e >= 0) & (e <= 1)), "effectiveness %s", e)
    # an exchanger with a given conductance
    u = build(H.NTUMethod(num_nodes=n), {"UA_overall": (c["UA"], "W/K"), "mdot_cold": (mc, "kg/s"), "T_in_cold": (Tc, "K"), "cp_cold": (flu["cp_cold"], "J/kg/K"), "mdot_hot": (mh, "kg/s"), "T_in_hot": (Th, "K"),
                                         "cp_hot": (flu["cp_hot"], "J/kg/K")})
    u.run_model()
    close(gv(u, "NTU") * Cmin, np.array(c["UA"]), 1e-9, 0, "transfer units")
    if np.any((eff > 0.05) & (eff < 0.99)):
        ctx.ok("ch<cc" if np.any(Ch < Cc) else "cc<ch")
    if c["defaults"]:
        ctx.tag("defaults")
