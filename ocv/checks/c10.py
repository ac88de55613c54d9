"""C10: vectorised results at a node depend on that node's inputs only."""
import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

from ..core import sub
from .. import registry as G
from ..lib import close

FAMS = dict(flow=["atmos", "aero", "phase"], power=["prop", "storage"], thermal=["thermal"], exchange=["hx", "duct"], util=["util"], solved=["implicit", "solved"])


def entries_of(fams):
    return [e for e in G.family(*fams) if e.vec is True and e.coupled is not True and not e.warn_only]


def cases(entries):
    @st.composite
    def f(draw):
        e = entries[draw(st.integers(0, len(entries) - 1))]
        cfg = draw(e.strat_cfg())
        n = draw(st.one_of(st.integers(2, 6), st.integers(2, 6), st.sampled_from([9, 17, 31])) if e.nn[1] > 3 else st.integers(2, 4))
        cfg["num_nodes"] = n
        v = draw(G.values(e, cfg))
        m = draw(st.integers(1, 7 if e.nn[1] > 3 else 4))
        return dict(e=e.name, cfg=cfg, v=v, idx=draw(st.lists(st.integers(0, n - 1), min_size=m, max_size=m)), one=draw(st.integers(0, n - 1)))
    return f


def evaluate(e, cfg, v):
    p = e.problem(cfg, derivs=e.solver is not None)
    G.load(p, e, cfg, v)
    for k, g in e.guess.items():
        p.set_val(k, g)
    p.run_model()
    return {n: np.array(p.get_val(n), dtype=float) for n, _ in e.meta(cfg)[1]}


def pick(e, cfg, v, idx):
    """The same operating points, selected by idx: inputs for the problem with len(idx) nodes."""
    n, m = cfg["num_nodes"], len(idx)
    c2 = dict(cfg, num_nodes=m)
    # an input is per node when its leading dimension follows the number of nodes
    s_a = {i[0]: i[1] for i in e.meta(dict(cfg, num_nodes=11))[0]}
    s_b = {i[0]: i[1] for i in e.meta(dict(cfg, num_nodes=13))[0]}
    out = {}
    for name, x in v.items():
        if s_a[name] != s_b[name]:
            x = np.array(x, dtype=float).reshape((n, -1))[idx].ravel().tolist()
        out[name] = x
    return c2, out


def make(name, entries, quick, shards, rtol):
    @sub("C10", name, cases(entries), quick=quick, thorough=quick * 25, shards=shards, rule="several nodes with different inputs, at least one output per node")
    def t(c, ctx):
        e = G.by_name(c["e"])
        cfg, v, n = c["cfg"], c["v"], c["cfg"]["num_nodes"]
        try:
            full = evaluate(e, cfg, v)
            sels = [evaluate(e, *pick(e, cfg, v, ix)) for ix in (c["idx"], [c["one"]])]
        except om.AnalysisError:
            ctx.skipped = True
            return
        o_a = dict(e.meta(dict(cfg, num_nodes=11))[1])
        o_b = dict(e.meta(dict(cfg, num_nodes=13))[1])
        per = 0
        for k, y in full.items():
            if k in e.coupled:
                continue
            for ix, other in zip((c["idx"], [c["one"]]), sels):
                if o_a[k] != o_b[k]:
                    per += 1
                    want = y.reshape((n, -1))[ix].ravel()
                    mag = np.max(np.abs(y)) if y.size else 0
                    close(other[k].ravel(), want, rtol, (1e-13 if e.solver is None else 1e-6) * mag + (0 if e.solver is None else 1e-7), "%s: output %s for nodes %s on their own, compared with the same nodes among %d" % (e.name, k, ix, n))
                else:
                    close(other[k], y, rtol, 1e-300, "%s: scalar output %s when the nodes change to %s" % (e.name, k, ix))
        if per and any(len(set(np.round(np.array(x), 9))) > 1 for x in v.values() if len(x) == n and n > 1):
            ctx.ok(e.name)


for _n, _f in FAMS.items():
    _e = entries_of(_f)
    make(_n, _e, 70 * len(_e), 1 + len(_e) // 8 if _n != "solved" else 3, 1e-10 if _n != "solved" else 1e-5)
