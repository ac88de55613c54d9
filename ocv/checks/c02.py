"""C02: single-phase integration (Integrator, OldIntegrator with one segment)."""
import numpy as np
from hypothesis import strategies as st

from ..core import sub, need
from ..lib import fl, arr, arrs, tail, vec, sfl, run, build, gv, close, raises, setv
from openconcept.utilities import Integrator
from openconcept.utilities.math.integrals import OldIntegrator
from openconcept.utilities.math import integrals as IN
import openmdao.api as om


# ---------------------------------------------------------------- reference scheme
def ref_integrate(f, h, q0, method):
    """The documented recurrences, solved one step at a time (no matrices shared with the code)."""
    f = np.asarray(f, dtype=float)
    n = len(f)
    q = np.zeros(n)
    q[0] = q0
    if n == 1:
        return q
    if method == "simpson":
        for k in range(0, n - 1, 2):
            q[k + 1] = q[k] + h / 12 * (5 * f[k] + 8 * f[k + 1] - f[k + 2])
            q[k + 2] = q[k] + h / 3 * (f[k] + 4 * f[k + 1] + f[k + 2])
        return q
    # bdf3: third-order differences for the first two points.  The first three unknowns are coupled:
    #  q'(1) = (-2 q0 - 3 q1 + 6 q2 - q3)/6h ; q'(2) = (q0 - 6 q1 + 3 q2 + 2 q3)/6h ; q'(3) = (11 q3 - 18 q2 + 9 q1 - 2 q0)/6h
    A = np.array([[-3.0, 6.0, -1.0], [-6.0, 3.0, 2.0], [9.0, -18.0, 11.0]])
    b = 6 * h * f[1:4] - q0 * np.array([-2.0, 1.0, -2.0])
    q[1:4] = np.linalg.solve(A, b)
    for k in range(4, n):
        q[k] = (6 * h * f[k] + 18 * q[k - 1] - 9 * q[k - 2] + 2 * q[k - 3]) / 11
    return q


DIFF = {"s": 1.0, "min": 60.0, "h": 3600.0, "ms": 1e-3}
QTY = {"kg": 1.0, "g": 1e-3, "t": 1e3}
LEN = {"m": 1.0, "km": 1e3, "cm": 1e-2}


@st.composite
def cases(draw):
    comp = draw(st.sampled_from(["new", "new", "new", "old"]))
    method = draw(st.sampled_from(["simpson", "bdf3"]))
    lo = 2 if method == "bdf3" else 1
    n = 2 * draw(tail(lo, 8, 40)) + 1
    if draw(st.integers(0, 14)) == 0:
        n = 1
    ts = draw(st.sampled_from(["dt", "duration", "bounds"]))
    diff = draw(st.sampled_from([None, "s", "min", "h"]))
    tu = draw(st.sampled_from(list(DIFF))) if diff else None
    states = []
    for i in range(draw(st.integers(1, 4)) if comp == "new" else 1):
        um = draw(st.sampled_from(["none", "units", "rate"] if comp == "new" else ["none", "units"]))
        fam = draw(st.sampled_from(["QTY", "LEN"]))
        tab = list(QTY if fam == "QTY" else LEN)
        zero_pre = draw(st.integers(0, 5)) == 0
        rate = draw(arrs(n, sfl(5.0)))
        if zero_pre:
            rate[: n // 2] = [0.0] * (n // 2)
        states.append(dict(
            um=um, fam=fam, u=draw(st.sampled_from(tab)), uset=draw(st.sampled_from(tab)),
            tset=draw(st.sampled_from(list(DIFF))), uget=draw(st.sampled_from(tab)),
            custom=draw(st.integers(0, 7)), zero_start=draw(st.booleans()), final_only=draw(st.integers(0, 3)) == 0,
            bounds=[draw(st.one_of(st.none(), fl(-900, -500))), draw(st.one_of(st.none(), fl(500, 900)))], vecval=draw(st.booleans()),
            rate=rate, q0=draw(sfl(10.0)), default_start=draw(st.booleans()), val=draw(fl(0, 3)),
        ))
    return dict(comp=comp, method=method, n=n, ts=ts, diff=diff, tu=tu, t0=draw(sfl(50.0)),
                dur=draw(fl(-20.0, 100.0)), states=states)


def _units(case, s):
    """(quantity units, rate units) as the documentation infers them; None when unitless."""
    diff = case["diff"]
    if s["um"] == "none":
        return None, ("1/%s" % diff if diff else None)
    if s["um"] == "units":
        return s["u"], ("%s/%s" % (s["u"], diff) if diff else s["u"])
    # rate units given: use u per diff unit (so the inferred quantity is an u) or u itself
    return (s["u"], "%s/%s" % (s["u"], diff)) if diff else (s["u"], s["u"])


@sub("C02", "scheme", cases, quick=1600, thorough=40000, shards=8,
     rule="at least one state with a non-constant rate on more than one node")
def scheme(case, ctx):
    n, diff = case["n"], case["diff"]
    kw = dict(num_nodes=n, method=case["method"], time_setup=case["ts"], diff_units=diff)
    if case["comp"] == "new":
        comp = Integrator(**kw)
    else:
        s = case["states"][0]
        comp = OldIntegrator(quantity_units=s["u"] if s["um"] == "units" else None, zero_start=s["zero_start"],
                             final_only=s["final_only"], **kw)
    p = om.Problem(reports=False)
    p.model.add_subsystem("i", comp, promotes=["*"])
    names = []
    for k, s in enumerate(case["states"]):
        if case["comp"] == "old":
            names.append(("q", "dqdt", "q_initial", "q_final"))
            continue
        nm = "s%d" % k
        rn = "%s_r" % nm if s["custom"] & 1 else None
        sn = "start|%s" % nm if s["custom"] & 2 else None
        en = "%s:end" % nm if s["custom"] & 4 else None
        a = dict(zero_start=s["zero_start"], final_only=s["final_only"])
        qu, ru = _units(case, s)
        if s["um"] == "units":
            a["units"] = s["u"]
        elif s["um"] == "rate":
            a["rate_units"] = ru
        if s["default_start"]:
            a["start_val"] = s["q0"]
        if s["custom"] & 1:
            a["val"] = s["val"] + np.arange(n) if s["vecval"] else s["val"]
        for side, b in zip(("lower", "upper"), s["bounds"]):
            if b is not None:
                a[side] = b
        for key, v in (("rate_name", rn), ("start_name", sn), ("end_name", en)):
            if v:
                a[key] = v
        comp.add_integrand(nm, **a)
        names.append((nm, rn or nm + "_rate", sn or nm + "_initial", en or nm + "_final"))
    p.setup(check=False)
    p.final_setup()
    if case["comp"] == "new":
        meta = comp.get_io_metadata(iotypes=("output",), metadata_keys=("val", "lower", "upper"))
        for s, (nm, rn, sn, en) in zip(case["states"], names):
            for o in [en] if s["final_only"] else [nm, en]:
                for side, b, dflt in zip(("lower", "upper"), s["bounds"], (-1e30, 1e30)):
                    need(meta[o][side] is not None and np.all(np.asarray(meta[o][side]) == (dflt if b is None else b)), "%s of %s is %r, asked for %r" % (side, o, meta[o][side], b))
                if s["custom"] & 1:
                    want = s["val"] + np.arange(n) * (1.0 if s["vecval"] else 0.0)
                    need(np.allclose(np.asarray(meta[o]["val"]), want if o == nm else want[-1], 1e-14, 1e-14), "initial guess of %s is %r, asked for %r" % (o, meta[o]["val"], want.tolist()))
    # time, given in the units the user likes
    tu = case["tu"] if diff else None
    tf = DIFF[tu] if diff else 1.0
    dur = case["dur"]  # in tu
    if case["ts"] == "dt":
        p.set_val("dt", dur / max(n - 1, 1), units=tu)
    elif case["ts"] == "duration":
        p.set_val("duration", dur, units=tu)
    else:
        p.set_val("t_initial", case["t0"], units=tu)
        p.set_val("t_final", case["t0"] + dur, units=tu)
    nontriv = False
    refs = []
    for s, (nm, rn, sn, en) in zip(case["states"], names):
        tab = QTY if s["fam"] == "QTY" else LEN
        qu, ru = _units(case, s)
        if diff:
            fd = DIFF[s["tset"]]
            if qu is None:
                p.set_val(rn, s["rate"], units="1/%s" % s["tset"])
                f_si = np.array(s["rate"]) / fd
            else:
                p.set_val(rn, s["rate"], units="%s/%s" % (s["uset"], s["tset"]))
                f_si = np.array(s["rate"]) * tab[s["uset"]] / fd
        elif qu is None:
            p.set_val(rn, s["rate"])
            f_si = np.array(s["rate"])
        else:
            p.set_val(rn, s["rate"], units=s["uset"])
            f_si = np.array(s["rate"]) * tab[s["uset"]]
        q0 = 0.0
        if not s["zero_start"]:
            if s["default_start"] and case["comp"] == "new":
                q0 = s["q0"] * (tab[s["u"]] if qu else 1.0)  # the default acts in the declared units
            else:
                if qu:
                    p.set_val(sn, s["q0"], units=s["uset"])
                    q0 = s["q0"] * tab[s["uset"]]
                else:
                    p.set_val(sn, s["q0"])
                    q0 = s["q0"]
        refs.append(ref_integrate(f_si, dur * tf / max(n - 1, 1), q0, case["method"]))
        nontriv = nontriv or (n > 1 and len(set(s["rate"])) > 1 and dur != 0)
    p.run_model()
    for s, (nm, rn, sn, en), ref in zip(case["states"], names, refs):
        tab = QTY if s["fam"] == "QTY" else LEN
        qu, _ = _units(case, s)
        g = s["uget"] if qu else None
        ref = ref / (tab[g] if g else 1.0)
        sc = np.max(np.abs(ref)) + np.max(np.abs(s["rate"])) * 0 + 1e-12
        close(gv(p, en, g)[0], ref[-1], 1e-9, 1e-10 * sc, "final value of %s" % nm)
        if not s["final_only"]:
            q = gv(p, nm, g)
            need(q.shape == (n,), "state %s has shape %s for %d nodes" % (nm, q.shape, n))
            close(q, ref, 1e-9, 1e-10 * sc, "history of %s" % nm)
            close(gv(p, en, g)[0], q[-1], 1e-14, 0, "reported final value vs last node of %s" % nm)
            close(q[0], ref[0], 1e-13, 1e-13 * sc, "first node of %s vs initial value" % nm)
    if nontriv:
        ctx.ok(case["comp"], case["method"], case["ts"], "units" if diff else "nounits", "states=%d" % len(names))
    else:
        ctx.tag("trivial")


@st.composite
def polys(draw):
    method = draw(st.sampled_from(["simpson", "bdf3"]))
    n = 2 * draw(st.integers(2, 15)) + 1
    deg = draw(st.integers(0, 3 if method == "simpson" else 2))
    return dict(method=method, n=n, c=draw(arr(deg + 1, sfl(4.0))), T=draw(fl(0.1, 30.0)), q0=draw(sfl(100.0)),
                old=draw(st.booleans()), ts=draw(st.sampled_from(["dt", "duration", "bounds"])))


@sub("C02", "exactness", polys, quick=500, thorough=12000, shards=4, rule="polynomial of degree at least one")
def exactness(case, ctx):
    n, T = case["n"], case["T"]
    t = np.linspace(0, T, n)
    P = np.polynomial.Polynomial(case["c"])
    exact = case["q0"] + P.integ()(t) - P.integ()(0.0)
    if case["old"]:
        comp = OldIntegrator(num_nodes=n, method=case["method"], time_setup=case["ts"], diff_units="s", quantity_units="m")
    else:
        comp = Integrator(num_nodes=n, method=case["method"], time_setup=case["ts"], diff_units="s")
    p = om.Problem(reports=False)
    p.model.add_subsystem("i", comp, promotes=["*"])
    if not case["old"]:
        comp.add_integrand("q", rate_name="dqdt", units="m")
    p.setup(check=False)
    p.set_val("dqdt", P(t))
    p.set_val("q_initial", case["q0"])
    if case["ts"] == "dt":
        p.set_val("dt", T / (n - 1))
    elif case["ts"] == "duration":
        p.set_val("duration", T)
    else:
        p.set_val("t_initial", -T)
        p.set_val("t_final", 0.0)
    p.run_model()
    q = gv(p, "q")
    sc = np.max(np.abs(exact)) + np.max(np.abs(P(t))) * T
    deg = len(case["c"]) - 1
    if deg <= 2:
        close(q, exact, 0, 1e-10 * sc, "integral of a degree %d polynomial, %s" % (deg, case["method"]))
    else:
        close(q[::2], exact[::2], 0, 1e-10 * sc, "integral of a cubic at Simpson interval ends")
    close(gv(p, "q_final")[0], exact[-1], 0, 1e-10 * sc, "final value")
    if any(c != 0 for c in case["c"][1:]):
        ctx.ok(case["method"], "deg%d" % deg)


@st.composite
def bad(draw):
    return dict(kind=draw(st.sampled_from(["even", "both", "ts", "even_old", "ts_old"])), n=draw(st.integers(1, 10)),
                name=draw(st.sampled_from(["Dt", "bound", "", "time"])), method=draw(st.sampled_from(["simpson", "bdf3"])))


@sub("C02", "refusals", bad, quick=60, thorough=400, rule="ill-formed request")
def refusals(case, ctx):
    k = case["kind"]
    n = max(5, 2 * case["n"] + 1)
    if k == "even":
        raises(lambda: Integrator(num_nodes=2 * case["n"], method=case["method"]), "even number of nodes", ValueError)
    elif k == "even_old":
        raises(lambda: build(OldIntegrator(num_nodes=2 * case["n"], method=case["method"])), "even number of nodes", ValueError)
    elif k == "both":
        i = Integrator(num_nodes=n, diff_units="s")
        raises(lambda: i.add_integrand("q", units="m", rate_units="m/s"), "both units and rate units", ValueError)
    elif k == "ts":
        def f():
            i = Integrator(num_nodes=n, time_setup=case["name"])
            i.add_integrand("q")
            build(i)
        raises(f, "time_setup=%r" % case["name"])
    else:
        raises(lambda: build(OldIntegrator(num_nodes=n, time_setup=case["name"])), "time_setup=%r" % case["name"])
    ctx.ok(k)


# ------------------------------------------------------------------ integration matrices
@st.composite
def matrices(draw):
    n = draw(st.integers(2, 8)) * 2 + 1
    return dict(n=n, kind=draw(st.sampled_from(["all_bdf", "bdf3", "simpson"])), f=draw(arr(n, sfl(5.0))), dt=draw(fl(0.1, 3.0)), seg=draw(st.integers(1, 3)), skip=draw(st.integers(0, 3)), q0=draw(sfl(10.0)))


@sub("C02", "matrices", matrices, quick=150, thorough=4000, rule="non-constant rate")
def t_matrices(c, ctx):
    """The cached integration matrices and multistep_integrator, against the stencils written out point by point."""
    n, dt = c["n"], c["dt"]
    if not all(hasattr(IN, k) for k in ("simpson_cache_matrix", "bdf3_cache_matrix", "multistep_integrator")):
        ctx.skipped = True  # module-level helpers: exercised through the components in the other sub-checks anyway
        return
    if c["kind"] == "simpson":
        tri, rep = IN.simpson_cache_matrix(n)
    else:
        tri, rep = IN.bdf3_cache_matrix(n, all_bdf=c["kind"] == "all_bdf")

    def one(f):
        """Increments over one segment."""
        q = np.zeros(n)
        if c["kind"] == "simpson":
            for i in range(0, n - 2, 2):
                q[i + 1] = q[i] + (5 * f[i] + 8 * f[i + 1] - f[i + 2]) / 12 * dt
                q[i + 2] = q[i + 1] + (-f[i] + 8 * f[i + 1] + 5 * f[i + 2]) / 12 * dt
            return q
        if c["kind"] == "all_bdf":
            q[1] = f[1] * dt
            q[2] = 4 / 3 * q[1] + 2 / 3 * f[2] * dt
        else:  # q1, q2, q3 from the three starting stencils
            A = np.array([[-1 / 2, 1, -1 / 6], [-1, 1 / 2, 1 / 3], [9 / 11, -18 / 11, 1]])
            q[1:4] = np.linalg.solve(A, np.array([f[1], f[2], 6 / 11 * f[3]]) * dt)
        for i in range(3 if c["kind"] == "all_bdf" else 4, n):
            q[i] = 18 / 11 * q[i - 1] - 9 / 11 * q[i - 2] + 2 / 11 * q[i - 3] + 6 / 11 * f[i] * dt
        return q

    m = c["seg"]
    fs = [np.array(c["f"]) * (1 + 0.3 * j) for j in range(m)]
    names = ["s%d" % j for j in range(m)]
    count = [s for j, s in enumerate(names) if not (c["skip"] >> j) & 1]
    kw = dict(segment_names=names, segments_to_count=count) if c["skip"] and count else {}
    got = np.asarray(IN.multistep_integrator(c["q0"], np.concatenate(fs), np.full(m, dt), tri, rep, partials=False, **kw)).ravel()
    want, q = [], c["q0"]
    for s, f in zip(names, fs):
        d = one(f) if not kw or s in count else np.zeros(n)
        want.append(q + d)
        q += d[-1]
    close(got, np.concatenate(want), 1e-9, 1e-9, "%s integration of %d segments" % (c["kind"], m))
    J, D = IN.multistep_integrator(c["q0"], np.concatenate(fs), np.full(m, dt), tri, rep, partials=True, **kw)
    close(J.dot(np.concatenate(fs)) + c["q0"], got, 1e-9, 1e-9, "%s: matrix form" % c["kind"])
    tot = sum(np.asarray(d.todense()).ravel() for d in D) * dt + c["q0"]
    close(tot, got, 1e-9, 1e-9, "%s: the sum of the time-step sensitivities times the time step" % c["kind"])
    if np.ptp(c["f"]) > 0:
        ctx.ok(c["kind"])
