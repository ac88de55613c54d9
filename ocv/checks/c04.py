"""C04: numerical differentiation."""
import numpy as np
from hypothesis import strategies as st

from ..core import sub, need
from ..lib import fl, arr, arrs, tail, sfl, gv, close, raises, build
from .c02 import DIFF, QTY
from openconcept.utilities import FirstDerivative
import openmdao.api as om


@st.composite
def cases(draw):
    order = draw(st.sampled_from([2, 4]))
    ni = draw(tail(1 if order == 2 else 2, 7, 70))
    nseg = draw(st.integers(0, 4))  # 0: unnamed single segment
    names = draw(st.permutations(["climb", "cruise", "reserve_climb", "cruise2"]))[:nseg]
    segs = []
    for _ in range(max(nseg, 1)):
        segs.append(dict(dt=draw(st.one_of(fl(0.05, 6.0), fl(-6.0, -0.05))), c=draw(arr(draw(st.integers(1, order + 1)), sfl(3.0))),
                         noise=draw(arrs(2 * ni + 1, sfl(5.0))), off=draw(st.sampled_from([0.0, 0.0, 1e3, 5e5])), tu=draw(st.sampled_from(["s", "min", "h"]))))
    return dict(order=order, ni=ni, names=list(names), segs=segs, diff=draw(st.sampled_from([None, "s", "min"])),
                qu=draw(st.sampled_from([None, "kg", "g"])), qset=draw(st.sampled_from(list(QTY))))


def _run(case, qs):
    kw = dict(num_intervals=case["ni"], order=case["order"], diff_units=case["diff"], quantity_units=case["qu"])
    if case["names"]:
        kw["segment_names"] = list(case["names"])
    p = build(FirstDerivative(**kw))
    p.set_val("q", np.concatenate(qs), units=case["qset"] if case["qu"] else None)
    for i, s in enumerate(case["segs"]):
        p.set_val((case["names"][i] + "|dt") if case["names"] else "dt", s["dt"], units=s["tu"] if case["diff"] else None)
    p.run_model()
    if case["diff"] and case["qu"]:
        u = case["qset"] + "/s"
    elif case["diff"]:
        u = "1/s"
    else:
        u = case["qset"] if case["qu"] else None
    return gv(p, "dqdt", u).reshape(len(case["segs"]), 2 * case["ni"] + 1)


@sub("C04", "exact", cases, quick=1000, thorough=25000, shards=8, rule="polynomial of the full stated order in some segment")
def exact(case, ctx):
    n = 2 * case["ni"] + 1
    qs, ds, hs = [], [], []
    for s in case["segs"]:
        x = np.arange(n) / (n - 1.0)  # normalised time
        P = np.polynomial.Polynomial([s["c"][0] + s["off"]] + s["c"][1:])
        h = s["dt"] * (DIFF[s["tu"]] if case["diff"] else 1.0)
        qs.append(P(x))
        ds.append(P.deriv()(x) / (h * (n - 1)))
        hs.append(h)
    got = _run(case, qs)
    for i, s in enumerate(case["segs"]):
        sc = (np.sum(np.abs(s["c"])) + s["off"] / 10 + 1e-3) * 10 / abs(hs[i])
        close(got[i], ds[i], 1e-9, 1e-11 * sc, "segment %d: derivative of %s, order %d" % (i, s["c"], case["order"]))
    if any(len(s["c"]) == case["order"] + 1 and s["c"][-1] != 0 for s in case["segs"]):
        ctx.ok("order%d" % case["order"], "segs=%d" % len(case["segs"]))


@sub("C04", "linear", cases, quick=400, thorough=10000, shards=4, rule="non-constant data in at least one segment")
def linear(case, ctx):
    """Arbitrary data: independent stencil reference (order 2 and 4), hence linearity and 1/step scaling."""
    n = 2 * case["ni"] + 1
    qs = [np.array(s["noise"]) for s in case["segs"]]
    got = _run(case, qs)
    m = case["order"] + 1  # number of points of each stencil
    for i, s in enumerate(case["segs"]):
        h = s["dt"] * (DIFF[s["tu"]] if case["diff"] else 1.0)
        ref = np.zeros(n)
        for k in range(n):
            a = min(max(k - case["order"] // 2, 0), n - m)
            x = np.arange(a, a + m) - k
            V = np.vander(x.astype(float), m, increasing=True).T
            w = np.linalg.solve(V, np.eye(m)[1])
            ref[k] = w @ qs[i][a:a + m] / h
        close(got[i], ref, 1e-9, 1e-9 * (np.max(np.abs(qs[i])) + 1e-3) / abs(h), "segment %d stencil" % i)
    if any(len(set(s["noise"])) > 1 for s in case["segs"]):
        ctx.ok("order%d" % case["order"])


@st.composite
def bad(draw):
    return dict(kind=draw(st.sampled_from(["few", "order"])), order=draw(st.sampled_from([0, 1, 3, 5, 6])), nseg=draw(st.integers(0, 3)))


@sub("C04", "refusals", bad, quick=30, thorough=200, rule="ill-formed request")
def refusals(case, ctx):
    kw = dict(segment_names=["s%d" % i for i in range(case["nseg"])]) if case["nseg"] else {}
    if case["kind"] == "few":
        raises(lambda: build(FirstDerivative(num_intervals=1, order=4, **kw)), "three nodes with order 4", ValueError)
    else:
        raises(lambda: build(FirstDerivative(num_intervals=4, order=case["order"], **kw)), "order %d" % case["order"], ValueError)
    ctx.ok(case["kind"])
