"""C20: vortex-lattice and aerostructural drag polars.

The reference builds the twisted wing by hand from the documented inputs (tip-first spanwise order) and
calls OpenAeroStruct directly; the polars' training data, surrogates and drag must agree with it after any
sequence of changes, failed analyses and other models in between.
"""
import contextlib
import io
import warnings
import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

from ..core import sub, need
from ..lib import fl, arr, bools, close, gv, setv, Interpreter
from .. import fd  # noqa: F401
from openaerostruct.aerodynamics.aero_groups import AeroPoint
from openaerostruct.structures.wingbox_group import WingboxGroup
from openaerostruct.structures.spatial_beam_setup import SpatialBeamSetup
from openconcept.aerodynamics.openaerostruct import VLMDragPolar, VLM, AerostructDragPolar, AerostructDragPolarExact, Aerostruct
import openconcept.aerodynamics.openaerostruct.drag_polar as DP
import openconcept.aerodynamics.openaerostruct.aerostructural as AP
from openconcept.atmospherics import TemperatureComp, PressureComp
from .c17 import cosine

W = "ac|geom|wing|"


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        yield


_NEW = Interpreter(DP, AP)


def fresh():
    """A new interpreter would start without class-level caches."""
    _NEW.restart()


# ------------------------------------------------------------------ reference
def bspline(cp, t):
    """Clamped uniform B-spline of order min(n, 4) at parameters t in 0..1 (OpenMDAO's documented spline component)."""
    n = len(cp)
    k = om.SplineComp(method="bsplines", x_interp_val=np.asarray(t), num_cp=n, interp_options={"order": min(n, 4)})
    k.add_spline(y_cp_name="c", y_interp_name="y")
    p = om.Problem(reports=False)
    p.model.add_subsystem("k", k, promotes=["*"])
    p.setup(check=False)
    p.set_val("c", cp)
    p.run_model()
    return gv(p, "y").ravel()


def pitch(mesh, twist):
    """Rotate every chord nose-up about its quarter chord."""
    m = np.array(mesh)
    q = 0.75 * m[0] + 0.25 * m[-1]
    t = np.radians(twist)[None, :]
    dx, dz = m[:, :, 0] - q[None, :, 0], m[:, :, 2] - q[None, :, 2]
    out = m.copy()
    out[:, :, 0] = q[None, :, 0] + dx * np.cos(t) + dz * np.sin(t)
    out[:, :, 2] = q[None, :, 2] - dx * np.sin(t) + dz * np.cos(t)
    return out


def trap_mesh(s, nx, ny):
    b = np.sqrt(s["S"] * s["AR"])
    cr = 2 * s["S"] / (b * (1 + s["taper"]))
    y = np.linspace(-b / 2, 0, ny + 1)
    eta = np.abs(y) / (b / 2)
    ch = cr * (1 - eta * (1 - s["taper"]))
    m = np.zeros((nx + 1, ny + 1, 3))
    m[:, :, 1] = y
    m[:, :, 0] = -0.25 * ch + np.abs(y) * np.tan(np.radians(s["sweep"])) + np.linspace(0, 1, nx + 1)[:, None] * ch
    return m


def sec_mesh(s, nx, nys):
    x, y, ch = np.array(s["x"]), np.array(list(s["y"]) + [0.0]), np.array(s["c"])
    A = np.sum((y[1:] - y[:-1]) * (ch[1:] + ch[:-1]))
    k = np.sqrt(s["S"] / A)
    yy, le, cc = [y[:1]], [x[:1]], [ch[:1]]
    for i, n in enumerate(nys):
        yy.append(cosine(y[i], y[i + 1], n)[1:])
        le.append(cosine(x[i], x[i + 1], n)[1:])
        cc.append(cosine(ch[i], ch[i + 1], n)[1:])
    yy, le, cc = (k * np.concatenate(v) for v in (yy, le, cc))
    m = np.zeros((nx + 1, len(yy), 3))
    m[:, :, 1] = yy
    m[:, :, 0] = le + cosine(0.0, 1.0, nx)[:, None] * cc
    return m


def along(v, nys, spacing):
    out = [np.asarray(v[:1], float)]
    for i, n in enumerate(nys):
        out.append((cosine(v[i], v[i + 1], n) if spacing == "cos" else np.linspace(v[i], v[i + 1], n + 1))[1:])
    return np.concatenate(out)


def wing(c, s):
    """(mesh, panel t/c) the inputs describe."""
    nx, nys = c["nx"], c["nys"]
    if c["geo"] == "mesh":
        return np.array(s["mesh"]), np.array(s["tc"])
    if c["geo"] == "trapezoidal":
        ny = nys[0]
        mid = along(s["tc"], [ny], "lin")
        return pitch(trap_mesh(s, nx, ny), bspline(s["twist"], np.linspace(0, 1, ny + 1))), 0.5 * (mid[1:] + mid[:-1])
    mid = along(s["tc"], nys, "cos")
    return pitch(sec_mesh(s, nx, nys), along(s["twist"], nys, "cos")), 0.5 * (mid[1:] + mid[:-1])


class Direct:
    """OpenAeroStruct's aerodynamic point, set up here."""

    def __init__(self, nx, ny, opts):
        dummy = np.zeros((nx + 1, ny + 1, 3))
        dummy[:, :, 0], dummy[:, :, 1] = np.meshgrid(np.linspace(0, 1, nx + 1), np.linspace(-1, 0, ny + 1), indexing="ij")
        surf = {"name": "wing", "mesh": dummy, "symmetry": True, "S_ref_type": "projected", "CL0": 0.0, "CD0": 0.0, "k_lam": 0.05, "t_over_c": np.array([0.12]), "c_max_t": 0.37,
                "with_viscous": True, "with_wave": True}
        surf.update(opts)
        p = self.p = om.Problem(reports=False)
        ivc = om.IndepVarComp()
        for k, u in (("alpha", "deg"), ("v", "m/s"), ("rho", "kg/m**3"), ("re", "1/m"), ("Mach_number", None)):
            ivc.add_output(k, 0.5, units=u)
            p.model.connect("i." + k, "a." + k)
        p.model.add_subsystem("i", ivc)
        p.model.add_subsystem("a", AeroPoint(surfaces=[surf]))
        p.setup(check=False)
        at = self.at = om.Problem(reports=False)
        at.model.add_subsystem("t", TemperatureComp(num_nodes=1), promotes_inputs=["fltcond|h", "fltcond|TempIncrement"])
        at.model.add_subsystem("pr", PressureComp(num_nodes=1), promotes_inputs=["fltcond|h"])
        at.setup(check=False)

    def __call__(self, mesh, tc, M, alpha, h, dT):
        p, at = self.p, self.at
        at.set_val("fltcond|h", h, units="m")
        at.set_val("fltcond|TempIncrement", dT, units="degC")
        at.run_model()
        T, pr = at.get_val("t.fltcond|T", units="K")[0], at.get_val("pr.fltcond|p", units="Pa")[0]
        rho = pr / 287.0528 / T
        a = np.sqrt(1.4 * 287.0528 * T)
        p.set_val("i.Mach_number", M)
        p.set_val("i.alpha", alpha, units="deg")
        p.set_val("i.v", M * a, units="m/s")
        p.set_val("i.rho", rho, units="kg/m**3")
        p.set_val("i.re", rho * M * a / (1.792398e-5 - 3.329134e-10 * h), units="1/m")
        p.set_val("a.wing.def_mesh", mesh, units="m")
        p.set_val("a.aero_states.wing_def_mesh", mesh, units="m")
        p.set_val("a.wing_perf.t_over_c", tc)
        p.run_model()
        return {k: gv(p, "a.wing_perf." + k) for k in ("CL", "CD", "CDi", "CDv", "CDw", "Cl")}


# ------------------------------------------------------------------ generators
def grid(draw):
    M = draw(st.sampled_from([[0.2, 0.6], [0.1, 0.5, 0.8], [0.3, 0.75]]))
    a = draw(st.sampled_from([[-3.0, 4.0], [-6.0, 2.0, 12.0], [0.0, 5.0]]))
    h = draw(st.sampled_from([[0.0, 10000.0], [2000.0, 11500.0]]))
    return dict(M=M, a=a, h=h, aslist=draw(bools))


@st.composite
def wings(draw, geo, nx, nys, ntw):
    s = dict(S=draw(fl(15, 400)), dT=draw(st.sampled_from([0.0, 0.0, 10.0, -20.0])))
    ns = len(nys) + 1
    if geo in ("trapezoidal", "mesh"):
        s.update(AR=draw(fl(5, 14)), taper=draw(fl(0.2, 1.0)), sweep=draw(fl(-10, 35)), twist=draw(arr(ntw, fl(-4, 4))), tc=draw(arr(2, fl(0.08, 0.18))))
    if geo == "mesh":
        m = pitch(trap_mesh(s, nx, nys[0]), np.array(draw(arr(nys[0] + 1, fl(-4, 4)))))
        s["mesh"] = m.tolist()
        s["tc"] = draw(arr(nys[0], fl(0.08, 0.18)))
    if geo == "section":
        dy = draw(arr(ns - 1, fl(2, 8)))
        ch = draw(arr(ns, fl(1, 5)))
        s.update(y=[float(v) for v in -np.cumsum(np.array(dy)[::-1])[::-1]], c=ch, x=draw(arr(ns, fl(-1, 6))), twist=draw(arr(ns, fl(-4, 4))), tc=draw(arr(ns, fl(0.08, 0.18))))
    return s


OPTS = [{}, {}, {}, {"CL0": 0.1}, {"CD0": 0.006, "k_lam": 0.2}, {"with_viscous": False}, {"with_wave": False}, {"S_ref_type": "wetted"}, {"c_max_t": 0.42}]


WARM = [0.02, 0.1, 0.3, -0.3, 0.45, -0.8, 1.5, -3.0, 5.0]  # changes of the temperature increment (K)


@st.composite
def histories(draw):
    geo = draw(st.sampled_from(["trapezoidal", "trapezoidal", "section", "section", "mesh"]))
    nx = draw(st.integers(1, 2))
    nys = draw(arr(draw(st.integers(1, 3)), st.integers(1, 3))) if geo == "section" else [draw(st.integers(2, 5))]
    same = geo == "section" and draw(bools)
    if same:
        nys = [nys[0]] * len(nys)
    c = dict(geo=geo, nx=nx, nys=nys, asint=same, ntw=draw(st.integers(2, 5)), nn=draw(st.integers(1, 3)), vecCD=draw(bools), opts=draw(st.sampled_from(OPTS)), grid=grid(draw))
    w = wings(geo, nx, nys, c["ntw"])
    c["first"] = draw(w)
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        op = draw(st.sampled_from(["one", "one", "one", "all", "back", "tiny", "cond", "fault", "other", "totals", "again", "shift", "shift", "flip", "warm"]))
        s = dict(op=op)
        if op == "warm":
            s["by"] = draw(st.sampled_from(WARM))
        if op in ("shift", "flip"):
            s["key"], s["i"] = draw(st.integers(0, 9)), draw(st.integers(0, 9))
        if op in ("one", "all", "fault", "other"):
            s["wing"] = draw(w)
            s["key"] = draw(st.integers(0, 9))
            s["i"] = draw(st.integers(0, 9))
            s["disc"] = draw(st.integers(0, 3))
        if op == "tiny":
            s["rel"] = draw(st.sampled_from([1e-9, 1e-7, 1e-5, 1e-3, 1e-2]))
            s["key"], s["i"] = draw(st.integers(0, 9)), draw(st.integers(0, 9))
        steps.append(s)
    c["steps"] = steps
    c["conds"] = [dict(M=draw(st.integers(0, 9)), h=draw(st.integers(0, 9)), CL=draw(fl(0.1, 0.8)), q=draw(fl(2000, 15000)), CD0=draw(arr(3, fl(0, 0.02)))) for _ in range(len(steps) + 1)]
    c["probe"] = [[draw(st.integers(0, 99)) for _ in range(2)] for _ in range(len(steps) + 1)]
    return c


KEYS = {"trapezoidal": ["S", "AR", "taper", "sweep", "twist", "tc", "dT"], "section": ["S", "y", "c", "x", "twist", "tc", "dT"], "mesh": ["mesh", "tc", "dT"]}
IN = {"S": ("S_ref", "m**2"), "AR": ("AR", None), "taper": ("taper", None), "sweep": ("c4sweep", "deg"), "twist": ("twist", "deg"), "tc": ("toverc", None), "y": ("y_sec", "m"), "c": ("chord_sec", "m"),
      "x": ("x_LE_sec", "m"), "mesh": ("OAS_mesh", "m")}


def put(p, c, s):
    for k in KEYS[c["geo"]] + ["S"]:
        if k == "dT":
            p.set_val("fltcond|TempIncrement", s[k], units="degC")
        else:
            p.set_val(W + IN[k][0], np.array(s[k]), units=IN[k][1])


def change(c, s, o):
    """A copy of wing s with one input (one entry of it, for vectors) changed."""
    s = dict(s)
    keys = KEYS[c["geo"]]
    k = keys[o["key"] % len(keys)]
    if k == "mesh" or not isinstance(s[k], list):
        new = o["wing"][k] if "wing" in o else (np.array(s[k]) * (1 + o["rel"])).tolist() if k != "dT" else s[k] + o["rel"]
        s[k] = new
    else:
        v = list(s[k])
        i = o["i"] % len(v)
        v[i] = o["wing"][k][i] if "wing" in o else v[i] * (1 + o["rel"]) + o["rel"]
        if k == "y":
            v = sorted(min(x, -0.5 - 0.5 * j) for j, x in enumerate(reversed(sorted(v))))
            for j in range(len(v) - 2, -1, -1):
                v[j] = min(v[j], v[j + 1] - 0.5)
        s[k] = v
    return s, k


def move(keys, s, o):
    """A copy of s with one spanwise distribution reversed, or moved from one station to another (same mean)."""
    s = dict(s)
    keys = [k for k in keys if isinstance(s[k], list) and k != "y"]
    k = keys[o["key"] % len(keys)]
    if k == "mesh":
        m = np.array(s[k])
        i = o["i"] % (m.shape[1] - 1)
        if o["op"] == "flip":
            m[:, :, 2] = m[:, ::-1, 2] + 0.01 * m[:, :, 1]
        else:
            m[:, i, 0] += 0.1
            m[:, i + 1, 0] -= 0.1
        s[k] = m.tolist()
    else:
        v = list(s[k])
        i = o["i"] % len(v)
        if o["op"] == "flip":
            v = v[::-1]
        else:
            d = 0.15 * v[i]
            v[i] -= d
            v[i - 1] += d
        s[k] = v
    return s, k


def rediscretized(c, k):
    """The same wing in another model: same analysis, other training points of the same number, fewer of them, or another mesh."""
    g = c["grid"]
    if k == 1:
        return dict(c, grid=dict(g, M=[m + 0.03 for m in g["M"]], a=[a - 0.5 for a in g["a"]]))
    if k == 2:
        return dict(c, grid=dict(g, h=[h + 400.0 for h in g["h"]]))
    if k == 3 and c.get("geo") != "mesh":
        return dict(c, nx=c["nx"] + 1)
    return c


def polar(c):
    g = c["grid"]
    conv = (lambda v: list(v)) if g["aslist"] else np.array
    num_y = c["nys"][0] if c["geo"] != "section" or c["asint"] else list(c["nys"])
    p = om.Problem(reports=False)
    p.model.add_subsystem("d", VLMDragPolar(num_nodes=c["nn"], geometry=c["geo"], num_x=c["nx"], num_y=num_y, num_sections=len(c["nys"]) + 1, num_twist=c["ntw"], vec_CD_nonwing=c["vecCD"],
                                            Mach_train=conv(g["M"]), alpha_train=conv(g["a"]), alt_train=conv(g["h"]), surf_options=dict(c["opts"])), promotes=["*"])
    p.model.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, maxiter=50, atol=1e-12, rtol=1e-12, iprint=-1)
    p.model.linear_solver = om.DirectSolver()
    p.setup(check=False)
    return p


def point(g, k):
    n = [len(g["M"]), len(g["a"]), len(g["h"])]
    k %= n[0] * n[1] * n[2]
    return np.unravel_index(k, n)


class Fault(Exception):
    pass


@sub("C20", "histories", histories, quick=90, thorough=2500, shards=4, rule="at least one change after the first evaluation", max_s=260)
def t_hist(c, ctx):
    g = c["grid"]
    fresh()
    direct = Direct(c["nx"], sum(c["nys"]), c["opts"])
    with quiet():
        p = polar(c)
    other = None
    s = first = c["first"]
    seen = [s]

    def flight(k):
        f = c["conds"][k]
        M, h = g["M"][f["M"] % len(g["M"])], g["h"][f["h"] % len(g["h"])]
        nn = c["nn"]
        CDn = np.array(f["CD0"][:nn]) if c["vecCD"] else f["CD0"][0]
        Ms = [M] + [g["M"][(f["M"] + j) % len(g["M"])] for j in range(1, nn)]
        CL = f["CL"] * np.linspace(1.0, 0.8, nn)
        p.set_val("fltcond|M", Ms)
        p.set_val("fltcond|h", np.full(nn, h), units="m")
        p.set_val("fltcond|CL", CL)
        p.set_val("fltcond|q", np.full(nn, f["q"]), units="Pa")
        p.set_val("ac|aero|CD_nonwing", CDn)
        return Ms, h, CL, f["q"], CDn

    def check(k, what):
        Ms, h, CL, q, CDn = flight(k)
        with quiet():
            p.run_model()
        mesh, tc = wing(c, s)
        if c["geo"] != "mesh":
            close(gv(p, "twisted_mesh", "m"), mesh, 1e-9, 1e-9 * np.max(np.abs(mesh)), what + ": analysed mesh")
            close(gv(p, "training_data." + W + "toverc"), tc, 1e-9, 0, what + ": panel thickness ratios")
        A, D = gv(p, "training_data.CL_train"), gv(p, "training_data.CD_train")
        need(A.shape == (len(g["M"]), len(g["a"]), len(g["h"])), what + ": training grid shape")
        for pr in c["probe"][k]:
            i, j, l = point(g, pr)
            with quiet():
                ref = direct(mesh, tc, g["M"][i], g["a"][j], g["h"][l], s["dT"])
            close(A[i, j, l], ref["CL"], 1e-8, 1e-9, "%s: trained CL at M=%g alpha=%g h=%g" % (what, g["M"][i], g["a"][j], g["h"][l]))
            close(D[i, j, l], ref["CD"], 1e-5, 1e-9, "%s: trained CD at M=%g alpha=%g h=%g" % (what, g["M"][i], g["a"][j], g["h"][l]))
        # drag at the requested lift
        al = gv(p, "aero_surrogate.alpha", "deg")
        got = gv(p, "aero_surrogate.CL")
        if np.max(np.abs(got - CL)) > 1e-9:
            return False
        CDw = gv(p, "aero_surrogate.CD")
        close(gv(p, "drag", "N"), q * s["S"] * (CDw + CDn), 1e-9, 0, what + ": drag from the wing and non-wing coefficients")
        # every node is at a trained Mach number and altitude: there the polar passes through the training data, so a
        # piecewise cubic through (alpha, CL), (alpha, CD) brackets the answer
        return al, Ms, h

    def reproduce(what):
        """Ask the polar for trained lift coefficients."""
        A, D = gv(p, "training_data.CL_train"), gv(p, "training_data.CD_train")
        nn = c["nn"]
        i, j, l = point(g, c["probe"][0][0])
        if np.min(np.diff(A[i, :, l])) < 1e-3:
            return
        p.set_val("fltcond|M", np.full(nn, g["M"][i]))
        p.set_val("fltcond|h", np.full(nn, g["h"][l]), units="m")
        p.set_val("fltcond|CL", np.full(nn, A[i, j, l]))
        p.set_val("alpha_bal.alpha", np.full(nn, g["a"][j] + 0.3), units="deg")
        q, CDn = 5000.0, 0.01
        p.set_val("fltcond|q", np.full(nn, q), units="Pa")
        p.set_val("ac|aero|CD_nonwing", CDn)
        with quiet():
            p.run_model()
        close(gv(p, "training_data.CL_train"), A, 1e-12, 1e-14, what + ": trained CL after a flight condition change")
        close(gv(p, "training_data.CD_train"), D, 1e-12, 1e-14, what + ": trained CD after a flight condition change")
        if np.max(np.abs(gv(p, "aero_surrogate.CL") - A[i, j, l])) > 1e-9 or np.max(np.abs(gv(p, "alpha_bal.alpha", "deg") - g["a"][j])) > 1.0:
            return
        close(gv(p, "alpha_bal.alpha", "deg"), g["a"][j], 1e-6, 1e-6, what + ": angle of attack at a trained lift coefficient")
        close(gv(p, "drag", "N"), q * s["S"] * (D[i, j, l] + CDn), 1e-7, 0, what + ": drag at a trained point")
        ctx.tag("reproduced")

    put(p, c, s)
    check(0, "first evaluation")
    for k, o in enumerate(c["steps"], 1):
        op = o["op"]
        what = "step %d (%s)" % (k, op)
        if op in ("one", "tiny"):
            s, key = change(c, s, o)
            what = "step %d (%s changed)" % (k, key)
            ctx.tag("changed " + key)
        elif op in ("shift", "flip"):
            s, key = move(KEYS[c["geo"]], s, o)
            what = "step %d (%s redistributed)" % (k, key)
            ctx.tag("redistributed " + key)
        elif op == "warm":
            s = dict(s, dT=s["dT"] + o["by"])
            what = "step %d (temperature increment changed by %g)" % (k, o["by"])
            ctx.tag("warmed")
        elif op == "all":
            s = o["wing"]
        elif op == "back":
            s = seen[0] if len(seen) < 3 else seen[-2]
        elif op == "fault":
            new, key = change(c, s, o)
            put(p, c, new)
            real = getattr(DP, "AeroPoint", None)

            def broken(*a, **kw):
                raise Fault("analysis failed")
            DP.AeroPoint = broken
            try:
                with quiet():
                    p.run_model()
            except Fault:
                ctx.tag("failed analysis")
            finally:
                DP.AeroPoint = real
            if o["i"] % 2:
                s = new
        elif op == "other":
            with quiet():
                if other is None or o["i"] % 2:
                    other = polar(rediscretized(c, o["disc"]))
                put(other, c, o["wing"] if o["i"] % 4 > 1 else s)
                other.set_val("fltcond|CL", 0.3)
                other.run_model()
            ctx.tag("another model")
        elif op == "totals":
            with quiet():
                p.compute_totals("training_data.CL_train", W + "toverc")
        seen.append(s)
        put(p, c, s)
        check(k, what)
    reproduce("at the end")
    # derivatives of the training data belong to the current inputs too
    key = "tc" if c["geo"] == "mesh" else ["twist", "tc"][c["probe"][0][0] % 2]
    with quiet():
        J = p.compute_totals(["training_data.CL_train", "training_data.CD_train"], W + IN[key][0])
    i, j, l = point(g, c["probe"][0][1])
    row = np.ravel_multi_index((i, j, l), (len(g["M"]), len(g["a"]), len(g["h"])))
    v = np.array(s[key], float)
    d = np.cos(1.0 + np.arange(len(v))) * (1.0 if key == "twist" else 0.01)

    def f(e):
        m, tc = wing(c, dict(s, **{key: list(v + e * d)}))
        with quiet():
            r = direct(m, tc, g["M"][i], g["a"][j], g["h"][l], s["dT"])
        return np.array([r["CL"][0], r["CD"][0]])
    e = 1e-2 if key == "twist" else 0.05
    num = (8 * (f(e / 2) - f(-e / 2)) - (f(e) - f(-e))) / (6 * e)
    for r, o in enumerate(("CL", "CD")):
        got = float(np.dot(J["training_data.%s_train" % o, W + IN[key][0]].reshape(A_size(g), -1)[row], d))
        close(got, num[r], 1e-3, 1e-7, "derivative of the trained %s with respect to %s" % (o, key))
    if any(o["op"] not in ("cond", "again") for o in c["steps"]):
        ctx.ok(c["geo"])


def A_size(g):
    return len(g["M"]) * len(g["a"]) * len(g["h"])


# ------------------------------------------------------------------ single analyses
@st.composite
def points(draw):
    nx, ny = draw(st.integers(1, 3)), draw(st.integers(2, 6))
    w = wings("mesh", nx, [ny], 3)
    one = lambda: dict(w=draw(w), M=draw(fl(0.1, 0.85)), a=draw(fl(-5, 10)), h=draw(fl(0, 12000)), dT=draw(fl(-20, 20)))  # noqa: E731
    return dict(nx=nx, ny=ny, opts=draw(st.sampled_from(OPTS)), sets=[one() for _ in range(draw(st.integers(1, 3)))])


@sub("C20", "analysis", points, quick=120, thorough=4000, shards=4, rule="all cases")
def t_point(c, ctx):
    """The VLM group, evaluated repeatedly, against OpenAeroStruct."""
    nx, ny = c["nx"], c["ny"]
    with quiet():
        p = om.Problem(reports=False)
        p.model.add_subsystem("v", VLM(num_x=nx, num_y=ny, surf_options=dict(c["opts"])), promotes=["*"])
        p.setup(check=False)
        direct = Direct(nx, ny, c["opts"])
    for s in c["sets"]:
        m, tc = np.array(s["w"]["mesh"]), np.array(s["w"]["tc"])
        with quiet():
            setv(p, {W + "OAS_mesh": (m, "m"), W + "toverc": tc, "fltcond|M": s["M"], "fltcond|alpha": (s["a"], "deg"), "fltcond|h": (s["h"], "m"), "fltcond|TempIncrement": (s["dT"], "degC")})
            p.run_model()
            r = direct(m, tc, s["M"], s["a"], s["h"], s["dT"])
        close(gv(p, "fltcond|CL"), r["CL"], 1e-8, 1e-10, "CL")
        for k in ("CD", "CDi", "CDv", "CDw"):
            close(gv(p, "fltcond|" + k), r[k], 1e-5, 1e-10, k)
        close(gv(p, "sectional_CL"), r["Cl"], 1e-8, 1e-10, "sectional CL")
        need(gv(p, "panel_forces").shape == (nx, ny, 3), "panel force shape")
    ctx.ok(str(sorted(c["opts"])))


# ------------------------------------------------------------------ aerostructural
UX = np.linspace(0.1, 0.6, 11)
UY = 0.06 * np.sin(np.pi * (0.15 + 0.6 * (UX - 0.1)))
LY = -0.055 * np.sin(np.pi * (0.2 + 0.5 * (UX - 0.1)))


@st.composite
def structs(draw):
    ny = draw(st.integers(3, 5))
    n = dict(tw=draw(st.integers(2, 4)), tc=draw(st.integers(2, 4)), sk=draw(st.integers(2, 4)), sp=draw(st.integers(2, 4)))

    def w():
        return dict(S=draw(fl(60, 300)), AR=draw(fl(6, 11)), taper=draw(fl(0.25, 1)), sweep=draw(fl(0, 30)), twist=draw(arr(n["tw"], fl(-3, 3))), tc=draw(arr(n["tc"], fl(0.1, 0.16))),
                    skin=draw(arr(n["sk"], fl(0.006, 0.02))), spar=draw(arr(n["sp"], fl(0.006, 0.02))), dT=draw(st.sampled_from([0.0, 0.0, 15.0])), CDn=draw(fl(0, 0.02)))
    steps = []
    for _ in range(draw(st.integers(1, 3))):
        steps.append(dict(op=draw(st.sampled_from(["one", "one", "one", "back", "tiny", "fault", "CDn", "other", "totals", "shift", "shift", "flip", "warm"])), by=draw(st.sampled_from(WARM)), wing=w(), key=draw(st.integers(0, 8)), i=draw(st.integers(0, 3)), disc=draw(st.integers(0, 3))))
    return dict(nx=draw(st.integers(1, 2)), ny=ny, n=n, first=w(), steps=steps, grid=dict(M=[0.2, 0.6], a=draw(st.sampled_from([[-2.0, 2.0, 6.0], [0.0, 5.0]])), h=[0.0, 9000.0]), probe=[draw(st.integers(0, 99)) for _ in range(5)],
                CL=draw(fl(0.15, 0.4)), q=draw(fl(3000, 9000)), opts=draw(st.sampled_from([{}, {}, {"CD0": 0.01}, {"wing_weight_ratio": 1.5}, {"mrho": 1.6e3, "struct_weight_relief": False}])))


AKEYS = ["S", "AR", "taper", "sweep", "twist", "tc", "skin", "spar", "dT"]
AIN = dict(IN, skin=("skin_thickness", "m"), spar=("spar_thickness", "m"))


def aput(p, s, cd=True):
    for k in AKEYS:
        if k == "dT":
            p.set_val("fltcond|TempIncrement", s[k], units="degC")
        else:
            p.set_val(W + AIN[k][0], np.array(s[k]), units=AIN[k][1])
    if cd:
        p.set_val("ac|aero|CD_nonwing", s["CDn"])


def sizes(c):
    return dict(num_x=c["nx"], num_y=c["ny"], num_twist=c["n"]["tw"], num_toverc=c["n"]["tc"], num_skin=c["n"]["sk"], num_spar=c["n"]["sp"])


def wingbox_mass(c, s, opts):
    """Structural mass from OpenAeroStruct's wing box, set up here."""
    nx, ny = c["nx"], c["ny"]
    mesh = pitch(trap_mesh(s, nx, ny), bspline(s["twist"], np.linspace(0, 1, ny + 1)))
    surf = {"name": "wing", "symmetry": True, "S_ref_type": "projected", "mesh": mesh, "fem_model_type": "wingbox", "data_x_upper": UX, "data_x_lower": UX, "data_y_upper": UY, "data_y_lower": LY,
            "spar_thickness_cp": np.array(s["spar"]), "skin_thickness_cp": np.array(s["skin"]), "t_over_c_cp": np.array(s["tc"]), "original_wingbox_airfoil_t_over_c": 0.12, "E": 73.1e9,
            "G": 73.1e9 / 2 / 1.33, "yield": 280e6, "mrho": 2.78e3, "fem_origin": 0.35, "wing_weight_ratio": 1.25, "strength_factor_for_upper_skin": 1.0, "struct_weight_relief": True,
            "distributed_fuel_weight": False, "exact_failure_constraint": False}
    surf.update(opts)
    p = om.Problem(reports=False)
    p.model.add_subsystem("b", WingboxGroup(surface=surf), promotes_inputs=["mesh", "t_over_c", "skin_thickness_cp", "spar_thickness_cp"], promotes_outputs=["A", "Iy", "Iz", "J", "A_int"])
    p.model.add_subsystem("m", SpatialBeamSetup(surface=surf), promotes_inputs=["mesh", "A", "Iy", "Iz", "J", "A_int"], promotes_outputs=["structural_mass"])
    p.setup(check=False)
    p.set_val("mesh", mesh, units="m")
    p.set_val("t_over_c", bspline(s["tc"], np.linspace(0, 1, ny)))
    p.set_val("skin_thickness_cp", s["skin"], units="m")
    p.set_val("spar_thickness_cp", s["spar"], units="m")
    p.run_model()
    return gv(p, "structural_mass", "kg")[0]


def exact(c, s, opts, M, a, h):
    p = om.Problem(reports=False)
    p.model.add_subsystem("a", Aerostruct(surf_options=opts, **sizes(c)), promotes=["*"])
    p.setup(check=False)
    p.model.a.aerostruct_point.coupled.nonlinear_solver.options["iprint"] = -1
    aput(p, s, cd=False)
    setv(p, {"fltcond|M": M, "fltcond|alpha": (a, "deg"), "fltcond|h": (h, "m")})
    p.run_model()
    return {k: gv(p, n)[0] for k, n in (("CL", "fltcond|CL"), ("CD", "fltcond|CD"), ("failure", "failure"), ("W", "ac|weights|W_wing"))}


@sub("C20", "aerostruct", structs, quick=14, thorough=500, shards=4, rule="at least one change after the first evaluation", max_s=260)
def t_struct(c, ctx):
    fresh()
    g = c["grid"]
    opts = dict(c["opts"], data_x_upper=UX, data_x_lower=UX, data_y_upper=UY, data_y_lower=LY)

    def make(c=c):
        g = c["grid"]
        p = om.Problem(reports=False)
        p.model.add_subsystem("d", AerostructDragPolar(num_nodes=2, Mach_train=np.array(g["M"]), alpha_train=np.array(g["a"]), alt_train=np.array(g["h"]), surf_options=opts, **sizes(c)), promotes=["*"])
        p.model.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, maxiter=50, atol=1e-12, rtol=1e-12, iprint=-1)
        p.model.linear_solver = om.DirectSolver()
        p.setup(check=False)
        return p
    with quiet():
        p = make()
    s = c["first"]
    seen = [s]
    other = odisc = None

    def check(k, what):
        i, j, l = point(g, c["probe"][k])
        p.set_val("fltcond|M", g["M"][i])
        p.set_val("fltcond|h", g["h"][l], units="m")
        p.set_val("fltcond|CL", c["CL"] * np.array([1.0, 0.7]))
        p.set_val("fltcond|q", c["q"], units="Pa")
        aput(p, s)
        with quiet():
            p.run_model()
            r = exact(c, s, opts, g["M"][i], g["a"][j], g["h"][l])
            w = wingbox_mass(c, s, opts)
        at = "%s at M=%g alpha=%g h=%g" % (what, g["M"][i], g["a"][j], g["h"][l])
        close(gv(p, "training_data.CL_train")[i, j, l], r["CL"], 1e-6, 1e-8, "trained CL, " + at)
        close(gv(p, "training_data.CD_train")[i, j, l], r["CD"] + s["CDn"], 1e-6, 1e-8, "trained CD, " + at)
        close(gv(p, "training_data.failure_train")[i, j, l], r["failure"], 1e-5, 1e-6, "trained failure index, " + at)
        close(r["W"], w, 1e-8, 0, "wing box mass of the direct analysis")
        close(gv(p, "ac|weights|W_wing", "kg"), w, 1e-8, 0, "wing weight, " + what)
        if np.max(np.abs(gv(p, "aero_surrogate.CL") - c["CL"] * np.array([1.0, 0.7]))) < 1e-9:
            close(gv(p, "drag", "N"), c["q"] * s["S"] * gv(p, "aero_surrogate.CD"), 1e-9, 0, "drag, " + what)
        # reproduce the trained point
        p.set_val("fltcond|CL", r["CL"])
        p.set_val("alpha_bal.alpha", g["a"][j] + 0.2, units="deg")
        with quiet():
            p.run_model()
        if np.max(np.abs(gv(p, "aero_surrogate.CL") - r["CL"])) < 1e-9 and np.max(np.abs(gv(p, "alpha_bal.alpha", "deg") - g["a"][j])) < 1.0:
            close(gv(p, "drag", "N"), c["q"] * s["S"] * (r["CD"] + s["CDn"]), 1e-5, 0, "drag at a trained point, " + what)
            close(gv(p, "failure"), r["failure"], 1e-4, 1e-5, "failure index at a trained point, " + what)

    check(0, "first evaluation")
    for k, o in enumerate(c["steps"], 1):
        op = o["op"]
        key = AKEYS[o["key"]]
        new = dict(s)
        if isinstance(s[key], list):
            v = list(s[key])
            v[o["i"] % len(v)] = o["wing"][key][o["i"] % len(v)] if op != "tiny" else v[o["i"] % len(v)] * (1 + 1e-6)
            new[key] = v
        else:
            new[key] = o["wing"][key] if op != "tiny" else s[key] * (1 + 1e-6)
        if op in ("one", "tiny"):
            s = new
            ctx.tag("changed " + key)
        elif op in ("shift", "flip"):
            s, key = move(AKEYS, s, o)
            ctx.tag("redistributed " + key)
        elif op == "back":
            s = seen[0]
        elif op == "warm":
            s = dict(s, dT=s["dT"] + o["by"])
        elif op == "CDn":
            s = dict(s, CDn=o["wing"]["CDn"])
        elif op == "fault":
            aput(p, new)
            real = getattr(AP, "AerostructPoint", None)

            def broken(*a, **kw):
                raise Fault("analysis failed")
            AP.AerostructPoint = broken
            try:
                with quiet():
                    p.run_model()
            except Fault:
                ctx.tag("failed analysis")
            finally:
                AP.AerostructPoint = real
            if o["i"] % 2:
                s = new
        elif op == "other":
            with quiet():
                if other is None or o["disc"] != odisc:
                    other, odisc = make(rediscretized(c, o["disc"])), o["disc"]
                aput(other, o["wing"] if o["i"] % 2 else s)
                other.set_val("fltcond|CL", 0.3)
                other.run_model()
        elif op == "totals":
            with quiet():
                p.compute_totals("ac|weights|W_wing", W + "skin_thickness")
        seen.append(s)
        check(k, "step %d (%s)" % (k, op))
    # derivatives belong to the current inputs
    key = ["skin", "twist", "tc", "S"][c["probe"][4] % 4]
    with quiet():
        J = p.compute_totals(["ac|weights|W_wing", "training_data.CD_train"], W + AIN[key][0])
        v = np.atleast_1d(np.array(s[key], float))
        d = np.cos(1.0 + np.arange(len(v))) * {"skin": 1e-3, "twist": 1.0, "tc": 0.01, "S": 1.0}[key]
        conv = (lambda x: list(x)) if isinstance(s[key], list) else (lambda x: float(x[0]))
        m = lambda e: wingbox_mass(c, dict(s, **{key: conv(v + e * d)}), opts)  # noqa: E731
        num = (8 * (m(0.05) - m(-0.05)) - (m(0.1) - m(-0.1))) / 0.6
    close(float(np.dot(np.ravel(J["ac|weights|W_wing", W + AIN[key][0]]), d)), num, 1e-4, 1e-6 * abs(m(0)), "derivative of the wing weight with respect to " + key)
    ctx.ok()


# ------------------------------------------------------------------ stiff wing: aerostructural = aerodynamic
@sub("C20", "rigid", structs, quick=24, thorough=500, shards=4, rule="all cases")
def t_rigid(c, ctx):
    """With a practically rigid structure the aerostructural analysis is the vortex-lattice analysis of the jig shape."""
    s = c["first"]
    g = c["grid"]
    opts = dict(data_x_upper=UX, data_x_lower=UX, data_y_upper=UY, data_y_lower=LY, E=73.1e15, G=27.5e15, CD0=0.004)
    ny = c["ny"]
    i, j, l = point(g, c["probe"][0])
    M, a, h = g["M"][i], g["a"][j], g["h"][l]
    with quiet():
        r = exact(c, s, opts, M, a, h)
        d = Direct(c["nx"], ny, dict(CD0=0.004, c_max_t=0.38))
        mesh = pitch(trap_mesh(s, c["nx"], ny), bspline(s["twist"], np.linspace(0, 1, ny + 1)))
        v = d(mesh, bspline(s["tc"], np.linspace(0, 1, ny)), M, a, h, s["dT"])
    close(r["CL"], v["CL"], 1e-4, 1e-6, "CL of a rigid wing")
    close(r["CD"], v["CD"], 1e-4, 1e-6, "CD of a rigid wing")
    ctx.ok()


@sub("C20", "exact", structs, quick=8, thorough=100, shards=4, rule="the angle of attack converged", max_s=200)
def t_exact(c, ctx):
    """AerostructDragPolarExact: the direct analysis at the angle of attack that gives the lift, node by node."""
    s = c["first"]
    opts = dict(c["opts"], data_x_upper=UX, data_x_lower=UX, data_y_upper=UY, data_y_lower=LY)
    p = om.Problem(reports=False)
    p.model.add_subsystem("d", AerostructDragPolarExact(num_nodes=2, surf_options=opts, **sizes(c)), promotes=["*"])
    p.model.nonlinear_solver = om.NewtonSolver(solve_subsystems=True, maxiter=20, atol=1e-9, rtol=1e-10, iprint=-1)
    p.model.linear_solver = om.DirectSolver()
    for k, v, u in (("fltcond|CL", np.ones(2), None), ("fltcond|M", np.ones(2), None), ("fltcond|h", np.ones(2), "m"), ("fltcond|q", np.ones(2), "Pa"), (W + "S_ref", 1.0, "m**2")):
        p.model.set_input_defaults(k, v, units=u)
    with quiet():
        p.setup(check=False)
        aput(p, s)
        M, h, CL, q = np.array([0.4, 0.5]), np.array([1000.0, 5000.0]), c["CL"] * np.array([1.0, 0.8]), c["q"] * np.array([1.0, 1.2])
        setv(p, {"fltcond|M": M, "fltcond|h": (h, "m"), "fltcond|CL": CL, "fltcond|q": (q, "Pa")})
        for k in range(2):
            getattr(p.model.d, "aerostruct_%d" % k).aerostruct_point.coupled.nonlinear_solver.options["iprint"] = -1
        p.run_model()
    al = gv(p, "fltcond|alpha", "deg")
    for k in range(2):
        with quiet():
            r = exact(c, s, opts, M[k], al[k], h[k])
        if abs(r["CL"] - CL[k]) > 1e-5:
            ctx.skipped = True
            return
        close(gv(p, "drag", "N")[k], q[k] * s["S"] * (r["CD"] + s["CDn"]), 1e-5, 0, "drag at node %d" % k)
        close(gv(p, "failure")[k], r["failure"], 1e-4, 1e-5, "failure index at node %d" % k)
    close(gv(p, "ac|weights|W_wing", "kg"), r["W"], 1e-8, 0, "wing weight")
    ctx.ok()
