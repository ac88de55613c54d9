"""C01: supplied derivatives against numerical ones, for every component and small group."""
import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

from ..core import sub, Violation
from .. import registry as G
from ..fd import compare
from ..lib import bools, fl

FAMS = ["atmos", "aero", "geom", "costs", "phase", "weights", "prop", "storage", "thermal", "hx", "duct", "util", "implicit", "solved"]
SEED = st.tuples(st.integers(0, 255), st.integers(0, 255)).map(lambda t: 256 * t[0] + t[1])


def deriv_cases(entries):
    @st.composite
    def f(draw):
        c = draw(G.entry_case(entries))
        c["mode"] = draw(st.sampled_from(["fwd", "rev"]))
        c["seed"] = draw(SEED)
        return c
    return f


def directions(size, rs):
    """(index or -1, vector) pairs."""
    if size <= 4:
        return [(i, np.eye(size)[i]) for i in range(size)]
    out = [(-1, rs.uniform(0.5, 1.5, size) * rs.choice([-1, 1], size)) for _ in range(2)]
    for i in rs.choice(size, 2, replace=False):
        out.append((int(i), np.eye(size)[i]))
    return out


def check_point(p, e, cfg, v, seed, ctx, rtol, floor, max_inputs=8, solve=None):
    ins, outs = e.meta(cfg)
    rs = np.random.RandomState(seed)
    names = [o[0] for o in outs]

    def ev():
        if solve:
            solve()
        else:
            p.run_model()
        return np.concatenate([np.array(p.get_val(n), dtype=float).ravel() for n in names])

    f0 = ev()
    wrt = [i for i in ins if i[0] not in e.skip and i[0].split(".")[-1] not in e.skip]
    if len(wrt) > max_inputs:
        wrt = [wrt[k] for k in sorted(rs.choice(len(wrt), max_inputs, replace=False))]
    J = p.compute_totals(of=names, wrt=[w[0] for w in wrt], return_format="flat_dict", driver_scaling=False)
    label = [(n, i) for n, s in outs for i in range(int(np.prod(s)))]
    n_con = 0
    for name, shape, units, dflt in wrt:
        size = int(np.prod(shape))
        x0 = np.array(v[name], dtype=float)
        lo, hi = e.rng(name, units) or G.fallback(dflt)
        A = np.concatenate([np.atleast_2d(np.array(J[(n, name)], dtype=float)).reshape(-1, size) for n in names], axis=0) * G.own_unit(p, name, units)
        for idx, d in directions(size, rs):
            xs = max(0.05 * abs(hi - lo), float(np.max(np.abs(x0 * d))) if idx >= 0 else float(np.mean(np.abs(x0))))
            xs = min(xs, abs(hi - lo))

            def f(t, d=d, x0=x0, name=name, shape=shape, units=units):
                p.set_val(name, (x0 + t * d).reshape(shape), units=units)
                return ev()

            an = A @ d
            bad, fd, concl = compare(f, an, f0, 0.01 * xs, xs, rtol, floor, 1e-7 if solve else 0.0)
            p.set_val(name, x0.reshape(shape), units=units)
            n_con += int(np.sum(concl))
            if np.any(bad):
                k = int(np.flatnonzero(bad)[0])
                raise Violation("%s: d %s[%d] / d %s%s is given as %r, numerically %r (configuration %s)" % (
                    e.name, label[k][0], label[k][1], name, "" if idx < 0 else "[%d]" % idx, float(an[k]), float(fd[k]), cfg))
            # something reported as not finite where the function is smooth
            nf = ~np.isfinite(an) & np.isfinite(fd) & concl
            if np.any(nf):
                k = int(np.flatnonzero(nf)[0])
                raise Violation("%s: d %s[%d] / d %s is not finite" % (e.name, label[k][0], label[k][1], name))
    ev()
    if n_con:
        ctx.ok(e.name)
    return n_con


def make(fam, entries, tol, quick, thorough, shards, max_s=None):
    @sub("C01", fam, deriv_cases(entries), quick=quick, thorough=thorough, shards=shards, max_s=max_s,
         rule="at least one derivative decided: numerical error estimate below 0.1 percent and no kink")
    def t(c, ctx):
        e = G.by_name(c["e"])
        p = e.problem(c["cfg"], mode=c["mode"])
        G.load(p, e, c["cfg"], c["v"])
        for k, g in e.guess.items():
            p.set_val(k, g)
        solve = None
        if e.solver is not None:
            def solve():
                p.run_model()
            try:
                solve()
            except om.AnalysisError:
                ctx.skipped = True
                return
        try:
            check_point(p, e, c["cfg"], c["v"], c["seed"], ctx, tol[0], tol[1], solve=solve)
        except om.AnalysisError:
            ctx.skipped = True


CPX = [x for x in G.family("util") if x.name in ("AddSubtractComp", "ElementMultiplyDivideComp", "VectorConcatenateComp", "VectorSplitComp")]


@sub("C01", "complex", deriv_cases(CPX), quick=80, thorough=3000, shards=1, rule="every case")
def t_complex(c, ctx):
    """The components that allocate for it work under OpenMDAO's complex step, and agree with their own partials."""
    e = G.by_name(c["e"])
    cfg, v = c["cfg"], c["v"]
    p = om.Problem(reports=False)
    p.model.add_subsystem("c", e.make({k: x for k, x in cfg.items() if k != "_nudge"}), promotes=["*"])
    p.setup(check=False, force_alloc_complex=True)
    G.load(p, e, cfg, v)
    p.run_model()
    ins, outs = e.meta(cfg)
    names = [o[0] for o in outs]
    f0 = {n: np.array(p.get_val(n)) for n in names}
    J = p.compute_totals(of=names, wrt=[i[0] for i in ins], return_format="flat_dict")
    rs = np.random.RandomState(c["seed"])
    h = 1e-30
    for name, shape, units, _ in ins:
        d = rs.uniform(-1, 1, int(np.prod(shape)))
        x0 = np.array(p.get_val(name)).ravel()
        p.set_complex_step_mode(True)
        try:
            p.set_val(name, (x0 + 1j * h * d).reshape(shape))
            p.run_model()
            got = {n: np.array(p.get_val(n)) for n in names}
        finally:
            p.set_val(name, x0.reshape(shape))
            p.set_complex_step_mode(False)
        for n in names:
            need = np.array(J[(n, name)], float).reshape(-1, x0.size) @ d
            if not np.allclose(got[n].real, f0[n], rtol=1e-12, atol=1e-12) or not np.allclose(got[n].imag.ravel() / h, need, rtol=1e-9, atol=1e-11):
                raise Violation("%s: under complex step %s is %r for a step in %s, expected %r + i h %r" % (e.name, n, got[n].ravel().tolist(), name, f0[n].ravel().tolist(), need.tolist()))
    ctx.ok(e.name)


@st.composite
def residual_cases(draw):
    c = draw(G.entry_case(RES))
    e = G.by_name(c["e"])
    n = c["cfg"].get("num_nodes", 1)
    c["y"] = {k: draw(st.lists(fl(r[0], r[1]), min_size=n, max_size=n)) for k, r in e.states.items()}
    return c


RES = G.family("residual")


@sub("C01", "residual", residual_cases, quick=200, thorough=6000, shards=2, rule="at least one residual derivative decided")
def t_residual(c, ctx):
    e = G.by_name(c["e"])
    cfg, v = c["cfg"], c["v"]
    p = e.problem(cfg)
    p.final_setup()
    comp = p.model.c
    ins, outs = e.meta(cfg)
    vals = dict(v, **c["y"])
    shapes = {n: s for n, s, _, _ in ins}
    shapes.update({n: s for n, s in outs if n in c["y"]})
    for n, x in vals.items():
        p.set_val(n, np.array(x).reshape(shapes[n]))

    def ev():
        p.model.run_apply_nonlinear()
        with comp._unscaled_context(outputs=[comp._outputs], residuals=[comp._residuals]):
            return np.concatenate([np.array(comp._residuals[k], dtype=float).ravel() for k in c["y"]])

    f0 = ev()
    data = list(p.check_partials(out_stream=None, method="fd", step=1e-3).values())[0]
    # check_partials perturbs and restores; put everything back
    for n, x in vals.items():
        p.set_val(n, np.array(x).reshape(shapes[n]))
    done = 0
    for name in shapes:
        x0 = np.array(vals[name], dtype=float)
        rngs = e.states.get(name) or e.rng(name, [i[2] for i in ins if i[0] == name][0]) or (0.5, 1.5)
        A = np.concatenate([np.array(data[(k, name)]["J_fwd"], dtype=float).reshape(-1, x0.size) if (k, name) in data else np.zeros((len(c["y"][k]), x0.size)) for k in c["y"]], axis=0)
        for i in range(x0.size):
            d = np.eye(x0.size)[i]
            xs = max(0.05 * abs(rngs[1] - rngs[0]), abs(x0[i]))

            def f(t):
                p.set_val(name, (x0 + t * d).reshape(shapes[name]))
                return ev()
            bad, fd, concl = compare(f, A @ d, f0, 0.01 * xs, xs)
            p.set_val(name, x0.reshape(shapes[name]))
            done += int(np.sum(concl))
            if np.any(bad):
                k = int(np.flatnonzero(bad)[0])
                raise Violation("%s: residual derivative %d with respect to %s[%d] is given as %r, numerically %r" % (e.name, k, name, i, float((A @ d)[k]), float(fd[k])))
    if done:
        ctx.ok(e.name)


for _f in FAMS:
    _e = [x for x in G.family(_f) if not x.warn_only]
    _k = len(_e)
    make(_f, _e, (1e-5, 1e-9) if _f not in ("implicit", "solved") else (3e-4, 1e-7), 18 * _k, 500 * _k, 1 + _k // 5)
