"""C21: engine decks and the rubberized turbofan.

The tables are read independently from the data files that ship with the package; the models are
compared with them at the tabulated points, between neighbouring points and along lines through
the envelope.
"""
import functools
import os
import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

from ..core import sub, need
from ..lib import fl, logfl, bools, gv, close, setv, raises
import openconcept
from openconcept.propulsion import RubberizedTurbofan, N3, CFM56
from openconcept.propulsion.N3 import N3Hybrid

ROOT = os.path.join(openconcept.__path__[0], "propulsion", "empirical_data")
ENG = {"N3": N3, "CFM56": CFM56, "N3Hybrid": N3Hybrid}
RATED = {"N3": 28620.0, "CFM56": 27300.0}
INS = ("throttle", "fltcond|h", "fltcond|M", "hybrid_power")
UNITS = {"thrust": "lbf", "fuel_flow": "lbm/s", "surge_margin": None, "T4": "degR"}
# surrogate accuracy at the tabulated points (about 3 x what the kriging nugget leaves)
ACC = {"thrust": 6.0, "fuel_flow": 0.004, "surge_margin": 0.8, "T4": 3.5}


@functools.lru_cache(None)
def table(eng):
    """(points [n, d], {output: [n]}) of the usable deck entries."""
    rows = []
    if eng == "CFM56":
        f = lambda k: np.load(os.path.join(ROOT, "cfm56", "cfm56%s.npy" % k))  # noqa: E731
        thr, wf, t4 = f("thrust"), f("wf"), f("t4")
        for i in range(8):
            for j in range(9):
                for k in range(9):
                    h, m, t = 35000.0 - 5000.0 * i, 0.1 * (8 - j), 0.1 * (10 - k)
                    if thr[i, j, k] > 0 and not (i == 7 and j < 3):
                        rows.append((t, h, m, thr[i, j, k], wf[i, j, k], t4[i, j, k]))
        d, outs = 3, ("thrust", "fuel_flow", "T4")
    else:
        base = os.path.join(ROOT, "n+3_hybrid" if eng == "N3Hybrid" else "n+3")
        f = lambda d, k: np.load(os.path.join(base, d, k + ".npy"))  # noqa: E731
        layers = [("power_off", 0.0)] + ([("power_on_500kW", 500.0), ("power_on_1MW", 1000.0)] if eng == "N3Hybrid" else [])
        t, h, m, F = (f("power_off", k).ravel() for k in ("throttle", "alt", "mach", "thrust"))
        for d, kw in layers:
            wf, sm = f(d, "wf").ravel(), f(d, "SMW").ravel()
            for i in np.flatnonzero(wf > 0):
                rows.append((t[i], h[i], m[i]) + ((kw,) if eng == "N3Hybrid" else ()) + (F[i], wf[i], sm[i]))
        d, outs = (4 if eng == "N3Hybrid" else 3), ("thrust", "fuel_flow", "surge_margin")
    a = np.array(rows)
    return a[:, :d], {k: a[:, d + i] for i, k in enumerate(outs)}


SIZES = (1, 2, 6, 25, 40, 200, 800)


@functools.lru_cache(None)
def model(eng, nn):
    c = ENG[eng](num_nodes=nn)
    trained(eng, c)
    p = om.Problem(reports=False)
    p.model.add_subsystem("c", c, promotes=["*"])
    p.setup(check=False)
    return p


def trained(eng, c):
    """The model is built from exactly the tabulated points (no training happens before this holds)."""
    X, Y = table(eng)
    have = np.column_stack([np.ravel(c.options["train_" + k]) for k in INS[:X.shape[1]]] + [np.ravel(c.options["train_" + k]) for k in Y])
    want = np.column_stack([X] + list(Y.values()))
    need(have.shape == want.shape, "%s deck model holds %s table entries, the deck has %s", eng, have.shape, want.shape)
    have, want = have[np.lexsort(have[:, :X.shape[1]].round(6).T)], want[np.lexsort(want[:, :X.shape[1]].round(6).T)]
    names = list(INS[:X.shape[1]]) + list(Y)
    for i, k in enumerate(names):
        close(have[:, i], want[:, i], 1e-9, 1e-9, "%s deck model entry %s" % (eng, k))


def evaluate(eng, P, units=None):
    n = len(P)
    P = np.vstack([P] + [P[-1:]] * (min(k for k in SIZES if k >= n) - n))
    p = model(eng, len(P))
    u = units or {}
    for i, k in enumerate(INS[:P.shape[1]]):
        p.set_val(k, P[:, i] / u[k][1] if k in u else P[:, i], units=u[k][0] if k in u else None)
    p.run_model()
    return {k: gv(p, k, UNITS[k])[:n] for k in table(eng)[1]}


ALT = {"fltcond|h": ("m", 1 / 0.3048)}
POW = {"hybrid_power": ("W", 1e-3)}


@st.composite
def at_points(draw):
    eng = draw(st.sampled_from(["N3", "CFM56", "N3Hybrid", "N3Hybrid"]))
    n = len(table(eng)[0])
    return dict(eng=eng, idx=draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=40)), si=draw(bools))


@sub("C21", "tabulated_points", at_points, quick=400, thorough=6000, shards=4, rule="at least two tabulated points requested")
def t_points(c, ctx):
    X, Y = table(c["eng"])
    P = X[c["idx"]]
    got = evaluate(c["eng"], P, dict(ALT, **(POW if P.shape[1] == 4 else {})) if c["si"] else None)
    for k, y in Y.items():
        close(got[k], y[c["idx"]], 0.0, ACC[k], "%s %s at tabulated points %s" % (c["eng"], k, P.tolist()))
    if len(set(c["idx"])) > 1:
        ctx.ok(c["eng"])


# ------------------------------------------------------------------ between the points
@functools.lru_cache(None)
def cells(eng):
    """Grid cells with all corners tabulated: list of corner index arrays, ordered as a hypercube."""
    X, _ = table(eng)
    axes = [np.unique(X[:, i].round(9)) for i in range(X.shape[1])]
    pos = {tuple(np.searchsorted(a, v - 1e-6) for a, v in zip(axes, x)): i for i, x in enumerate(X)}
    out = []
    d = X.shape[1]
    for key in pos:
        cor = [pos.get(tuple(k + ((b >> i) & 1) for i, k in enumerate(key))) for b in range(2 ** d)]
        if all(v is not None for v in cor):
            out.append(cor)
    return out


@functools.lru_cache(None)
def slopes(eng):
    """Largest |difference quotient| between neighbouring tabulated points, per output and axis."""
    X, Y = table(eng)
    s = {k: np.zeros(X.shape[1]) for k in Y}
    for cor in cells(eng):
        for i in range(X.shape[1]):
            for b in range(2 ** X.shape[1]):
                if not (b >> i) & 1:
                    lo, hi = cor[b], cor[b | (1 << i)]
                    for k, y in Y.items():
                        s[k][i] = max(s[k][i], abs(y[hi] - y[lo]) / (X[hi, i] - X[lo, i]))
    return s


@st.composite
def between(draw):
    eng = draw(st.sampled_from(["N3", "CFM56", "N3Hybrid", "N3Hybrid"]))
    return dict(eng=eng, pts=draw(st.lists(st.tuples(st.integers(0, len(cells(eng)) - 1), *[fl(0, 1)] * (4 if eng == "N3Hybrid" else 3)), min_size=1, max_size=25)))


@sub("C21", "between_points", between, quick=400, thorough=6000, shards=4, rule="a point strictly inside a cell of the deck")
def t_between(c, ctx):
    eng = c["eng"]
    X, Y = table(eng)
    P, lin, spread = [], {k: [] for k in Y}, {k: [] for k in Y}
    for q in c["pts"]:
        cor, w = cells(eng)[int(q[0])], np.array(q[1:])
        P.append(X[cor[0]] + w * (X[cor[-1]] - X[cor[0]]))
        wt = [np.prod([w[i] if (b >> i) & 1 else 1 - w[i] for i in range(len(w))]) for b in range(2 ** len(w))]
        for k, y in Y.items():
            lin[k].append(np.dot(wt, y[cor]))
            spread[k].append(np.ptp(y[cor]))
    got = evaluate(eng, np.array(P))
    for k in Y:
        e = np.abs(got[k] - lin[k]) - ACC[k]
        tol = BETWEEN[k] * np.array(spread[k])
        need(np.all(e <= tol), "%s %s between tabulated points: %s, linear interpolation of the cell's corners gives %s (corner spread %s) at %s", eng, k, got[k].tolist(), lin[k], spread[k], np.array(P).tolist())
    if any(0.01 < v < 0.99 for q in c["pts"] for v in q[1:]):
        ctx.ok(eng)


# largest deviation seen over 4000 points: thrust 0.38, others 0.16
BETWEEN = {"thrust": 0.7, "fuel_flow": 0.35, "surge_margin": 0.35, "T4": 0.35}


@st.composite
def line(draw):
    eng = draw(st.sampled_from(["N3", "CFM56", "N3Hybrid"]))
    d = 4 if eng == "N3Hybrid" else 3
    cell = draw(st.integers(0, len(cells(eng)) - 1))
    return dict(eng=eng, a=[cell] + draw(st.lists(fl(0, 1), min_size=d, max_size=d)), b=[draw(st.integers(0, len(cells(eng)) - 1))] + draw(st.lists(fl(0, 1), min_size=d, max_size=d)), n=draw(st.sampled_from([50, 200, 800])))


@sub("C21", "continuity", line, quick=160, thorough=3000, shards=4, rule="a line crossing at least one cell boundary")
def t_cont(c, ctx):
    eng = c["eng"]
    X, Y = table(eng)
    ends = []
    for q in (c["a"], c["b"]):
        cor = cells(eng)[int(q[0])]
        ends.append(X[cor[0]] + np.array(q[1:]) * (X[cor[-1]] - X[cor[0]]))
    t = np.linspace(0, 1, c["n"])[:, None]
    P = ends[0] + t * (ends[1] - ends[0])
    got = evaluate(eng, P)
    step = np.abs(ends[1] - ends[0]) / (c["n"] - 1)
    for k in Y:
        lim = 3 * np.dot(slopes(eng)[k], step) + 1e-9
        j = np.abs(np.diff(got[k]))
        i = int(np.argmax(j))
        need(j[i] <= lim, "%s %s jumps by %g between %s and %s (steps of the deck allow %g)", eng, k, j[i], P[i].tolist(), P[i + 1].tolist(), lim)
    if int(c["a"][0]) != int(c["b"][0]):
        ctx.ok(eng, "n=%d" % c["n"])


# ------------------------------------------------------------------ rubberized engine
@st.composite
def rubber(draw):
    eng = draw(st.sampled_from(["N3", "CFM56"]))
    nn = draw(st.integers(1, 6))
    pts = draw(st.lists(st.tuples(fl(0.05, 1.05), fl(0, 36000), fl(0.15, 0.85)), min_size=nn, max_size=nn))
    return dict(eng=eng, give=draw(bools) or eng != "N3", hyd=draw(st.sampled_from([None, False, True])), rating=draw(st.lists(logfl(300, 3e5), min_size=1, max_size=3)), unit=draw(st.sampled_from([["lbf", 1.0], ["N", 4.4482216152605], ["kN", 4.4482216152605e-3]])), pts=pts)


@sub("C21", "rubberized", rubber, quick=600, thorough=8000, shards=4, rule="rating different from the deck's")
def t_rubber(c, ctx):
    eng, nn = c["eng"], len(c["pts"])
    P = np.array(c["pts"])
    deck = evaluate(eng, P)
    kw = dict(num_nodes=nn)
    if c["give"]:
        kw["engine"] = eng
    if c["hyd"] is not None:
        kw["hydrogen"] = c["hyd"]
    p = om.Problem(reports=False)
    p.model.add_subsystem("e", RubberizedTurbofan(**kw), promotes=["*"])
    p.setup(check=False)
    setv(p, {"throttle": P[:, 0], "fltcond|h": (P[:, 1], "ft"), "fltcond|M": P[:, 2]})
    extra = "surge_margin" if eng == "N3" else "T4"
    for r in c["rating"]:
        p.set_val("ac|propulsion|engine|rating", r * c["unit"][1], units=c["unit"][0])
        p.run_model()
        s = r / RATED[eng]
        close(gv(p, "thrust", "lbf"), deck["thrust"] * s, 1e-7, 1e-9, "thrust of %s rubberized to %g lbf" % (eng, r))
        close(gv(p, "fuel_flow", "lbm/s"), deck["fuel_flow"] * s * (43 / 120.0 if c["hyd"] else 1.0), 1e-7, 1e-12, "fuel flow of %s rubberized to %g lbf (hydrogen=%s)" % (eng, r, c["hyd"]))
        close(gv(p, extra, UNITS[extra]), deck[extra], 1e-8, 1e-9, extra)
    ctx.ok(eng, "hydrogen=%s" % c["hyd"])


@sub("C21", "refused", st.sampled_from(["", "n3", "PW1100", "cfm56"]), quick=4, thorough=4, rule="an unknown engine name")
def t_refuse(c, ctx):
    def go():
        p = om.Problem(reports=False)
        p.model.add_subsystem("e", RubberizedTurbofan(engine=c))
        p.setup()
    raises(go, "engine=%r" % c)
    ctx.ok()
