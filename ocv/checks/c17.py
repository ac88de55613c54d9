"""C17: planform geometry, tail sizing, meshes."""
import numpy as np
from hypothesis import strategies as st

from ..core import sub, need
from ..lib import fl, logfl, arr, tail, bools, gv, close, build, setv, raises
from openconcept.geometry import WingMACTrapezoidal, WingSpan, WingAspectRatio, WingSweepFromSections, WingAreaFromSections, WingMACFromSections, CylinderSurfaceArea
from openconcept.stability import HStabVolumeCoefficientSizing, VStabVolumeCoefficientSizing
from openconcept.aerodynamics.openaerostruct import TrapezoidalPlanformMesh, SectionPlanformMesh, ThicknessChordRatioInterp, SectionLinearInterp

LU = [("m", 1.0), ("ft", 0.3048), ("inch", 0.0254)]
AU = [("m**2", 1.0), ("ft**2", 0.3048**2)]
GX, GW = np.polynomial.legendre.leggauss(4)


def twice(comp, sets, check):
    """Evaluate the same component for every set of inputs, in order: each result stands on its own."""
    p = build(comp)
    for ins, args in sets:
        setv(p, ins)
        p.run_model()
        check(p, *args)
    return p


# --------------------------------------------------------------- trapezoidal wing
@st.composite
def trap(draw):
    one = lambda: dict(S=draw(logfl(1.0, 900.0)), AR=draw(fl(1.0, 25.0)), taper=draw(st.one_of(fl(0.02, 1.0), st.just(1.0))), sweep=draw(fl(-35.0, 55.0)), L=draw(logfl(0.5, 80.0)),  # noqa: E731
                       D=draw(logfl(0.1, 10.0)), arm=draw(logfl(0.5, 60.0)), au=draw(st.sampled_from(AU)), lu=draw(st.sampled_from(LU)))
    return dict(nx=draw(tail(1, 5, 12)), ny=draw(tail(1, 9, 40)), sets=[one() for _ in range(draw(st.integers(1, 3)))], Ch=draw(fl(0.2, 1.5)), Cv=draw(fl(0.01, 0.2)), npint=draw(bools),
                defC=draw(bools))


@sub("C17", "trapezoid", trap, quick=1000, thorough=30000, shards=4, rule="tapered and swept")
def t_trap(c, ctx):
    sets = c["sets"]
    A = lambda s: (s["S"] / s["au"][1], s["au"][0])  # noqa: E731

    def chord(s):
        b = np.sqrt(s["S"] * s["AR"])
        cr = 2 * s["S"] / (b * (1 + s["taper"]))
        return b, cr, lambda eta: cr * (1 - eta * (1 - s["taper"]))  # eta 0 root .. 1 tip

    def mac_of(s):
        b, cr, f = chord(s)
        x = (GX + 1) / 2
        return np.sum(GW / 2 * f(x) ** 2) / np.sum(GW / 2 * f(x))

    twice(WingMACTrapezoidal(), [({"S_ref": A(s), "AR": s["AR"], "taper": s["taper"]}, (s,)) for s in sets], lambda p, s: close(gv(p, "MAC", "m"), mac_of(s), 1e-9, 0, "mean aerodynamic chord"))
    twice(WingSpan(), [({"S_ref": A(s), "AR": s["AR"]}, (s,)) for s in sets], lambda p, s: close(gv(p, "span", "m") ** 2 / s["S"], s["AR"], 1e-9, 0, "span^2/S"))
    twice(WingAspectRatio(), [({"S_ref": A(s), "span": (chord(s)[0] / s["lu"][1], s["lu"][0])}, (s,)) for s in sets], lambda p, s: close(gv(p, "AR"), s["AR"], 1e-9, 0, "aspect ratio"))
    twice(CylinderSurfaceArea(), [({"L": (s["L"] / s["lu"][1], s["lu"][0]), "D": s["D"]}, (s,)) for s in sets], lambda p, s: close(gv(p, "A", "m**2"), np.pi * s["D"] * s["L"], 1e-9, 0, "cylinder area"))
    Ch, Cv = (1.0, 0.09) if c["defC"] else (c["Ch"], c["Cv"])
    # tail volume coefficients: V_h = S_h L_h/(S_w MAC), V_v = S_v L_v/(S_w b)
    twice(HStabVolumeCoefficientSizing() if c["defC"] else HStabVolumeCoefficientSizing(C_ht=Ch),
          [({"ac|geom|wing|S_ref": A(s), "ac|geom|wing|MAC": (mac_of(s), "m"), "ac|geom|hstab|c4_to_wing_c4": (s["arm"] / s["lu"][1], s["lu"][0])}, (s,)) for s in sets],
          lambda p, s: close(gv(p, "ac|geom|hstab|S_ref", "m**2") * s["arm"] / (s["S"] * mac_of(s)), Ch, 1e-9, 0, "horizontal tail volume coefficient"))
    twice(VStabVolumeCoefficientSizing() if c["defC"] else VStabVolumeCoefficientSizing(C_vt=Cv),
          [({"ac|geom|wing|S_ref": A(s), "ac|geom|wing|AR": s["AR"], "ac|geom|vstab|c4_to_wing_c4": (s["arm"] / s["lu"][1], s["lu"][0])}, (s,)) for s in sets],
          lambda p, s: close(gv(p, "ac|geom|vstab|S_ref", "m**2") * s["arm"] / (s["S"] * chord(s)[0]), Cv, 1e-9, 0, "vertical tail volume coefficient"))

    nx, ny = c["nx"], c["ny"]

    def mesh(p, s):
        m = gv(p, "mesh", "m")
        need(m.shape == (nx + 1, ny + 1, 3), "mesh shape %s for %d x %d panels" % (m.shape, nx, ny))
        b, cr, f = chord(s)
        close(m[:, :, 2], 0.0, 0, 0, "z coordinates")
        y = np.linspace(-b / 2, 0.0, ny + 1)
        close(m[:, :, 1], np.tile(y, (nx + 1, 1)), 1e-9, 1e-10 * b, "span positions")
        ch = f(np.abs(y) / (b / 2))
        x = -0.25 * ch + np.abs(y) * np.tan(np.radians(s["sweep"]))
        close(m[:, :, 0], x + np.linspace(0, 1, nx + 1)[:, None] * ch, 1e-9, 1e-9 * b, "streamwise positions")
        area = mesh_area(m)
        close(2 * area, s["S"], 1e-8, 0, "mesh planform area")
        need(np.all(np.diff(m[:, :, 0], axis=0) > 0) and np.all(np.diff(m[:, :, 1], axis=1) > 0), "mesh folded or out of order")

    i = (lambda v: np.int64(v)) if c["npint"] else (lambda v: v)
    twice(TrapezoidalPlanformMesh(num_x=i(nx), num_y=i(ny)), [({"S": A(s), "AR": s["AR"], "taper": s["taper"], "sweep": (s["sweep"], "deg")}, (s,)) for s in sets], mesh)
    if any(s["taper"] < 1 and s["sweep"] for s in sets):
        ctx.ok("sets=%d" % len(sets))


def mesh_area(m):
    """Sum of the areas of all quadrilaterals, from their diagonals' cross product."""
    d1, d2 = m[1:, 1:] - m[:-1, :-1], m[1:, :-1] - m[:-1, 1:]
    return 0.5 * np.sum(np.abs(np.cross(d1, d2)[..., 2]))


# --------------------------------------------------------------- sectioned wing
@st.composite
def sect(draw):
    ns = draw(tail(2, 6, 11))
    nys = draw(arr(ns - 1, tail(1, 6, 20)))
    kind = draw(st.sampled_from(["int", "list", "tuple", "array"]))
    a = draw(st.integers(0, ns - 2))
    b = draw(st.integers(a + 1, ns - 1))

    def one():
        dy = draw(arr(ns - 1, fl(0.05, 8.0)))
        y = -np.cumsum(np.array(dy)[::-1])[::-1]
        return dict(y=[float(v) for v in y], x=draw(arr(ns, fl(-10.0, 15.0))), c=draw(arr(ns, fl(0.05, 9.0))), S=draw(logfl(0.5, 900.0)), u=draw(st.sampled_from(LU)), au=draw(st.sampled_from(AU)),
                    prop=draw(arr(ns, fl(-30.0, 30.0))), tc=draw(arr(ns, fl(0.02, 0.3))))
    return dict(ns=ns, nx=draw(tail(1, 5, 12)), ny=nys, kind=kind, sets=[one() for _ in range(draw(st.integers(1, 3)))], sel=draw(st.sampled_from(["all", "both", "start", "end"])), a=a, b=b,
                frac=draw(st.one_of(st.none(), st.tuples(fl(0.0, 0.5), fl(0.5, 1.0)))), units=draw(st.sampled_from([None, "deg", "m"])))


def cosine(a, b, n):
    t = 0.5 * (1 - np.cos(np.pi * np.arange(n + 1) / n))
    return a + (b - a) * t


@sub("C17", "sections", sect, quick=1000, thorough=30000, shards=8, rule="at least three sections, a partial region selection or unequal panel counts")
def t_sect(c, ctx):
    ns, nx = c["ns"], c["nx"]
    nys = [c["ny"][0]] * (ns - 1) if c["kind"] == "int" else c["ny"]
    num_y = {"int": c["ny"][0], "list": list(nys), "tuple": tuple(nys), "array": np.array(nys)}[c["kind"]]
    lo, hi = (c["a"] if c["sel"] in ("both", "start") else 0), (c["b"] if c["sel"] in ("both", "end") else ns - 1)
    ix = {}
    if c["sel"] in ("both", "start"):
        ix["idx_sec_start"] = c["a"]
    if c["sel"] in ("both", "end"):
        ix["idx_sec_end"] = c["b"]
    L = lambda s, v: (np.array(v) / s["u"][1], s["u"][0])  # noqa: E731
    geo = lambda s: {"x_LE_sec": L(s, s["x"]), "y_sec": L(s, s["y"]), "chord_sec": L(s, s["c"])}  # noqa: E731
    full = lambda s: (np.array(s["x"]), np.array(s["y"] + [0.0]), np.array(s["c"]))  # noqa: E731

    def integrals(s, lo, hi):
        """half-wing integrals of c, c^2, c*x_c4, c*cos(sweep) over the region by quadrature"""
        x, y, ch = full(s)
        I = np.zeros(4)
        for k in range(lo, hi):
            w = y[k + 1] - y[k]
            t = (GX + 1) / 2
            cc = ch[k] + (ch[k + 1] - ch[k]) * t
            xq = x[k] + (x[k + 1] - x[k]) * t + 0.25 * cc
            slope = ((x[k] + ch[k] / 4) - (x[k + 1] + ch[k + 1] / 4)) / w
            I += w * np.array([np.sum(GW / 2 * f) for f in (cc, cc**2, cc * xq, cc / np.sqrt(1 + slope**2))])
        return I

    def sweep(p, s):
        I = integrals(s, lo, hi)
        close(np.cos(np.radians(gv(p, "c4sweep", "deg"))), I[3] / I[0], 1e-9, 1e-12, "cosine of the average sweep")
        need(gv(p, "c4sweep", "deg")[0] >= 0, "negative average sweep")

    def mac(p, s):
        I = integrals(s, lo, hi)
        close(gv(p, "MAC", "m"), I[1] / I[0], 1e-9, 0, "mean aerodynamic chord of the region")
        close(gv(p, "x_c4MAC", "m"), I[2] / I[0], 1e-9, 1e-9 * (1 + np.max(np.abs(s["x"]))), "quarter chord position of the mean chord")

    twice(WingSweepFromSections(num_sections=ns, **ix), [(geo(s), (s,)) for s in c["sets"]], sweep)
    twice(WingMACFromSections(num_sections=ns, **ix), [(geo(s), (s,)) for s in c["sets"]], mac)
    fr = c["frac"]
    fo = {} if fr is None else dict(chord_frac_start=fr[0], chord_frac_end=fr[1])
    span = 1.0 if fr is None else fr[1] - fr[0]
    only = lambda s: {k: v for k, v in geo(s).items() if k != "x_LE_sec"}  # noqa: E731
    twice(WingAreaFromSections(num_sections=ns, **ix, **fo), [(only(s), (s,)) for s in c["sets"]], lambda p, s: close(gv(p, "S", "m**2"), 2 * span * integrals(s, lo, hi)[0], 1e-9, 1e-12, "area of the region"))

    # meshes
    def mesh(p, s, scale):
        x, y, ch = full(s)
        A = 2 * integrals(s, 0, ns - 1)[0]
        k = np.sqrt(s["S"] / A) if scale else 1.0
        m = gv(p, "mesh", "m")
        N = sum(nys)
        need(m.shape == (nx + 1, N + 1, 3), "mesh shape %s for %d x %s panels" % (m.shape, nx, nys))
        close(m[:, :, 2], 0.0, 0, 0, "z coordinates")
        e = np.concatenate([[0], np.cumsum(nys)])
        xi = cosine(0.0, 1.0, nx)
        big = 1e-9 * (np.max(np.abs(m)) + 1)
        for i in range(ns - 1):
            sl = slice(e[i], e[i + 1] + 1)
            yy = k * cosine(y[i], y[i + 1], nys[i])
            close(m[:, sl, 1], np.tile(yy, (nx + 1, 1)), 1e-9, big, "span positions in region %d" % i)
            t = (yy / k - y[i]) / (y[i + 1] - y[i])
            le, cc = k * (x[i] + t * (x[i + 1] - x[i])), k * (ch[i] + t * (ch[i + 1] - ch[i]))
            close(m[:, sl, 0], le + xi[:, None] * cc, 1e-9, big, "streamwise positions in region %d" % i)
        want = s["S"] if scale else A
        close(2 * mesh_area(m), want, 1e-8, 0, "mesh planform area")
        if not scale:
            close(gv(p, "S", "m**2"), A, 1e-9, 0, "planform area output")
        need(np.all(np.diff(m[:, :, 0], axis=0) > 0) and np.all(np.diff(m[:, :, 1], axis=1) > 0), "mesh folded or out of order")

    for scale in (True, False):
        twice(SectionPlanformMesh(num_x=nx, num_y=num_y, num_sections=ns, scale_area=scale),
              [(dict(geo(s), **({"S": (s["S"] / s["au"][1], s["au"][0])} if scale else {})), (s, scale)) for s in c["sets"]], mesh)

    # interpolation onto the nodes / panels of the same mesh
    for cos in (True, False, None):
        kw = dict(num_y=num_y, num_sections=ns)
        if cos is not None:
            kw["cos_spacing"] = cos

        def nodes(v):
            out = [np.asarray(v[:1])]
            for i in range(ns - 1):
                g = cosine(v[i], v[i + 1], nys[i]) if cos in (True, None) else np.linspace(v[i], v[i + 1], nys[i] + 1)
                out.append(g[1:])
            return np.concatenate(out)

        twice(SectionLinearInterp(units=c["units"], **kw), [({"property_sec": np.array(s["prop"])}, (s,)) for s in c["sets"]],
              lambda p, s: close(gv(p, "property_node", c["units"]), nodes(s["prop"]), 1e-10, 1e-11, "interpolated property (cos_spacing=%s)" % cos))
        twice(ThicknessChordRatioInterp(**kw), [({"section_toverc": np.array(s["tc"])}, (s,)) for s in c["sets"]],
              lambda p, s: close(gv(p, "panel_toverc"), 0.5 * (nodes(s["tc"])[1:] + nodes(s["tc"])[:-1]), 1e-10, 1e-13, "panel thickness ratio (cos_spacing=%s)" % cos))
    if ns > 2 and (lo > 0 or hi < ns - 1 or len(set(nys)) > 1):
        ctx.ok("kind=%s" % c["kind"])


@st.composite
def refused(draw):
    ns = draw(st.integers(2, 6))
    return dict(ns=ns, n=draw(st.integers(1, 8)), bad=draw(st.sampled_from([1, 0, -1])), which=draw(st.sampled_from(["sections", "length"])))


@sub("C17", "refusals", refused, quick=60, thorough=1000, rule="wrong number of panel counts")
def t_refused(c, ctx):
    for cls in (SectionPlanformMesh, ThicknessChordRatioInterp, SectionLinearInterp):
        if c["which"] == "sections":
            raises(lambda: build(cls(num_sections=c["bad"], num_y=3)), "%s with %d sections" % (cls.__name__, c["bad"]), ValueError)
            ctx.ok()
        elif c["n"] != c["ns"] - 1:
            raises(lambda: build(cls(num_sections=c["ns"], num_y=[2] * c["n"])), "%s with %d panel counts for %d sections" % (cls.__name__, c["n"], c["ns"]), ValueError)
            ctx.ok()
