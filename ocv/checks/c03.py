"""C03: multi-segment integration equals chaining the segments."""
import numpy as np
from hypothesis import strategies as st

from ..core import sub, need
from ..lib import fl, arr, arrs, tail, sfl, gv, close, raises, build
from .c02 import ref_integrate, DIFF, QTY
from openconcept.utilities import Integrator
from openconcept.utilities.math.integrals import OldIntegrator
import openmdao.api as om


@st.composite
def cases(draw):
    method = draw(st.sampled_from(["simpson", "bdf3"]))
    n = 2 * draw(tail(2 if method == "bdf3" else 1, 5, 25)) + 1
    nseg = draw(tail(1, 5, 7))
    names = draw(st.permutations(["climb", "cruise", "reserve_climb", "cruise2", "limb", "hold", "h"]))[:nseg]
    count = draw(st.one_of(st.none(), st.sets(st.sampled_from(names)).map(sorted)))
    segs = []
    for _ in range(nseg):
        z = draw(st.integers(0, 7)) == 0
        segs.append(dict(dt=draw(fl(-2.0, 8.0)), tu=draw(st.sampled_from(list(DIFF))),
                         rate=[0.0] * n if z else draw(arrs(n, sfl(5.0)))))
    return dict(method=method, n=n, names=list(names), count=count, segs=segs, diff=draw(st.sampled_from([None, "s", "h"])),
                qu=draw(st.sampled_from([None, "kg", "g"])), qset=draw(st.sampled_from(list(QTY))),
                zero_start=draw(st.booleans()), final_only=draw(st.integers(0, 3)) == 0, q0=draw(sfl(20.0)))


def _run(case):
    comp = OldIntegrator(num_nodes=case["n"], method=case["method"], segment_names=list(case["names"]),
                         segments_to_count=None if case["count"] is None else list(case["count"]),
                         diff_units=case["diff"], quantity_units=case["qu"], zero_start=case["zero_start"],
                         final_only=case["final_only"], time_setup="dt")
    p = om.Problem(reports=False)
    p.model.add_subsystem("i", comp, promotes=["*"])
    p.setup(check=False)
    # rates are given in SI-like base (declared units of rate): qset / tu of the first segment
    rate = np.concatenate([s["rate"] for s in case["segs"]])
    qf = QTY[case["qset"]] if case["qu"] else 1.0
    if case["qu"] and case["diff"]:
        p.set_val("dqdt", rate, units="%s/s" % case["qset"])
    elif case["qu"]:
        p.set_val("dqdt", rate, units=case["qset"])
    elif case["diff"]:
        p.set_val("dqdt", rate, units="1/s")
    else:
        p.set_val("dqdt", rate)
    for nm, s in zip(case["names"], case["segs"]):
        p.set_val(nm + "|dt", s["dt"], units=s["tu"] if case["diff"] else None)
    if not case["zero_start"]:
        p.set_val("q_initial", case["q0"], units=case["qset"] if case["qu"] else None)
    p.run_model()
    return p, qf


@sub("C03", "chain", cases, quick=1000, thorough=25000, shards=8, rule="at least two segments with non-zero rate")
def chain(case, ctx):
    p, qf = _run(case)
    u = case["qset"] if case["qu"] else None
    n = case["n"]
    q = 0.0 if case["zero_start"] else case["q0"]
    full = []
    for nm, s in zip(case["names"], case["segs"]):
        h = s["dt"] * (DIFF[s["tu"]] if case["diff"] else 1.0)
        counted = case["count"] is None or nm in case["count"]
        r = ref_integrate(s["rate"], h, q, case["method"]) if counted else np.full(n, q)
        full.append(r)
        q = r[-1]
    full = np.concatenate(full)
    sc = np.max(np.abs(full)) + 1e-12
    close(gv(p, "q_final", u)[0], full[-1], 1e-9, 1e-10 * sc, "final value")
    if not case["final_only"]:
        close(gv(p, "q", u), full, 1e-9, 1e-10 * sc, "history over %d segments" % len(case["segs"]))
    nz = sum(any(s["rate"]) for s in case["segs"])
    if nz >= 2:
        ctx.ok(case["method"], "segs=%d" % len(case["segs"]), "all" if case["count"] is None else "subset")


@sub("C03", "single", cases, quick=300, thorough=8000, shards=4,
     rule="at least two segments counted; chained through the single-segment component")
def single(case, ctx):
    """Differential: the same chain through separate single-segment Integrator components."""
    case = dict(case, zero_start=False, final_only=False)
    p, qf = _run(case)
    u = case["qset"] if case["qu"] else None
    n = case["n"]
    m = om.Problem(reports=False)
    prev = None
    cnt = 0
    for k, (nm, s) in enumerate(zip(case["names"], case["segs"])):
        if case["count"] is not None and nm not in case["count"]:
            continue
        cnt += 1
        c = Integrator(num_nodes=n, method=case["method"], diff_units="s", time_setup="duration")
        m.model.add_subsystem("s%d" % k, c)
        c.add_integrand("q", rate_name="r", units="kg")
        if prev is not None:
            m.model.connect("s%d.q_final" % prev, "s%d.q_initial" % k)
        prev = k
    if prev is None:
        return
    m.setup(check=False)
    first = True
    for k, (nm, s) in enumerate(zip(case["names"], case["segs"])):
        if case["count"] is not None and nm not in case["count"]:
            continue
        m.set_val("s%d.r" % k, s["rate"])
        m.set_val("s%d.duration" % k, s["dt"] * (DIFF[s["tu"]] if case["diff"] else 1.0) * (n - 1))
        if first:
            m.set_val("s%d.q_initial" % k, case["q0"])
            first = False
    m.run_model()
    q = gv(p, "q", u).reshape(len(case["segs"]), n)
    sc = np.max(np.abs(q)) + 1e-12
    for k, nm in enumerate(case["names"]):
        if case["count"] is None or nm in case["count"]:
            close(q[k], gv(m, "s%d.q" % k), 1e-9, 1e-10 * sc, "segment %s vs the segment on its own" % nm)
    if cnt >= 2:
        ctx.ok(case["method"])


@st.composite
def bad(draw):
    return dict(n=2 * draw(st.integers(2, 6)) + 1, ts=draw(st.sampled_from(["bounds", "duration", "other"])),
                nseg=draw(st.integers(1, 3)))


@sub("C03", "refusals", bad, quick=30, thorough=200, rule="time setup other than dt for several segments")
def refusals(case, ctx):
    raises(lambda: build(OldIntegrator(num_nodes=case["n"], segment_names=["s%d" % i for i in range(case["nseg"])],
                                       time_setup=case["ts"])), "time_setup=%s for segments" % case["ts"], ValueError)
    ctx.ok(case["ts"])
