"""C25: plotted content."""
import os
import glob
import numpy as np
from hypothesis import strategies as st
import openmdao.api as om
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402

from ..core import sub, need, Violation
from ..lib import fl, arr, sfl, close
from openconcept.utilities import plot_trajectory, plot_trajectory_grid, plot_OAS_mesh, plot_OAS_force_contours

U = {"m": ["m", "km", "ft"], "kg": ["kg", "lb"], "s": ["s", "min"], "m/s": ["m/s", "kn"], None: [None]}
F = {"m": 1.0, "km": 1e3, "ft": 0.3048, "kg": 1.0, "lb": 0.45359237, "s": 1.0, "min": 60.0, "m/s": 1.0, "kn": 1852 / 3600.0, None: 1.0}
VARS = [("range", "m"), ("h", "m"), ("mass", "kg"), ("t", "s"), ("V", "m/s"), ("throttle", None), ("grp.x", "m")]


@st.composite
def traj(draw):
    ph = draw(st.permutations(["climb", "cruise", "descent", "v0v1", "hold"]))
    nph = draw(st.integers(1, 5))
    nn = draw(st.sampled_from([1, 3, 5]))
    ncase = draw(st.integers(1, 3))
    ny = draw(st.sampled_from([1, 2, 3, 4, 5, 7]))
    lab = st.sampled_from(["Alt (ft)", "W", "T_1", "speed [kn]"])
    return dict(
        model_phases=sorted(ph[:nph]), phases=list(draw(st.permutations(ph[:nph])))[: draw(st.integers(1, nph))], nn=nn, ncase=ncase,
        x=draw(st.integers(0, len(VARS) - 1)), xu=draw(st.integers(0, 2)), y=draw(arr(ny, st.integers(0, len(VARS) - 1))), yu=draw(arr(ny, st.integers(0, 2))),
        xl=draw(st.one_of(st.none(), lab)), yl=draw(st.one_of(st.none(), arr(ny, st.one_of(st.none(), lab)))),
        marker=draw(st.sampled_from([None, "o", "-", "r+", "k--"])), title=draw(st.one_of(st.none(), lab)),
        layout=draw(st.one_of(st.none(), st.just([1, 1]), st.tuples(st.integers(1, 3), st.integers(1, 3)).map(list))), save=draw(st.booleans()),
        seed=draw(st.integers(0, 10 ** 6)),
    )


def _prob(case, k):
    """A real model: phases hold the variables; values differ for every phase, variable and case."""
    p = om.Problem(reports=False)
    rng = np.random.default_rng([case["seed"], k])
    data = {}
    for ph in case["model_phases"]:
        g = p.model.add_subsystem(ph, om.Group())
        ivc = g.add_subsystem("ivc", om.IndepVarComp(), promotes=["*"])
        sub_ = g.add_subsystem("grp", om.IndepVarComp())
        for v, u in VARS:
            val = np.round(rng.uniform(-100, 100, case["nn"]), 6)
            data[ph, v] = val
            (sub_ if v.startswith("grp.") else ivc).add_output(v.split(".")[-1], val=val, units=u)
    p.setup(check=False)
    p.final_setup()
    return p, data


def _want(case, data, iv, iu):
    v, u = VARS[iv]
    us = U[u]
    un = us[iu % len(us)]
    return v, un, np.concatenate([data[ph, v] for ph in case["phases"]]) / F[un]


def _line(ax, x, y, marker, what):
    raise NotImplementedError


def _check_line(ln, x, y, marker, what):
    close(np.asarray(ln.get_xdata(), float), x, 1e-9, 1e-12, what + " abscissa")
    close(np.asarray(ln.get_ydata(), float), y, 1e-9, 1e-12, what + " ordinate")
    m = marker or "o"
    if m == "o":
        need(ln.get_marker() == "o" and ln.get_linestyle() in ("None", ""), "%s marker %r line %r" % (what, ln.get_marker(), ln.get_linestyle()))
    elif m == "-":
        need(ln.get_linestyle() == "-" and ln.get_marker() in ("None", ""), "%s drawn with %r/%r" % (what, ln.get_marker(), ln.get_linestyle()))
    elif m == "r+":
        need(ln.get_marker() == "+" and ln.get_color() == "r", "%s marker %r" % (what, ln.get_marker()))
    else:
        need(ln.get_linestyle() == "--" and ln.get_color() == "k", "%s line %r" % (what, ln.get_linestyle()))


@sub("C25", "trajectory", traj, quick=160, thorough=3000, shards=6, rule="two or more phases or variables plotted")
def trajectory(case, ctx):
    p, data = _prob(case, 0)
    plt.close("all")
    xv, xu, x = _want(case, data, case["x"], case["xu"])
    ys = [_want(case, data, i, j) for i, j in zip(case["y"], case["yu"])]
    kw = {}
    if case["marker"]:
        kw["marker"] = case["marker"]
    if case["title"]:
        kw["plot_title"] = case["title"]
    if case["xl"]:
        kw["x_label"] = case["xl"]
    if case["yl"]:
        kw["y_labels"] = list(case["yl"])
    plot_trajectory(p, xv, xu, [y[0] for y in ys], [y[1] for y in ys], list(case["phases"]), **kw)
    figs = [plt.figure(i) for i in plt.get_fignums()]
    need(len(figs) == len(ys), "%d figures for %d variables" % (len(figs), len(ys)))
    for i, (fig, y) in enumerate(zip(figs, ys)):
        ax = fig.axes[0]
        need(len(fig.axes) == 1 and len(ax.lines) == 1, "figure %d has %d axes, %d curves" % (i, len(fig.axes), len(ax.lines)))
        _check_line(ax.lines[0], x, y[2], case["marker"], "figure %d (%s)" % (i, y[0]))
        need(ax.get_xlabel() == (case["xl"] or xv), "x label %r" % ax.get_xlabel())
        need(ax.get_title() == (case["title"] or "Trajectory"), "title %r" % ax.get_title())
        want = y[0] if not case["yl"] else case["yl"][i]
        need(ax.get_ylabel() == (want or ""), "y label %r instead of %r" % (ax.get_ylabel(), want))
    plt.close("all")
    if len(case["phases"]) > 1 or len(ys) > 1:
        ctx.ok("phases=%d" % len(case["phases"]))


@sub("C25", "grid", traj, quick=120, thorough=2500, shards=8, rule="two or more phases, variables or cases plotted")
def grid(case, ctx):
    probs = [_prob(case, k) for k in range(case["ncase"])]
    plt.close("all")
    for f in glob.glob("grid_*.pdf"):
        os.remove(f)
    kw = {}
    lay = case["layout"]
    if lay:
        kw["grid_layout"] = list(lay)
    for k, v in (("marker", case["marker"]), ("x_label", case["xl"]), ("y_labels", case["yl"] and list(case["yl"]))):
        if v:
            kw[k] = v
    if case["save"]:
        kw["savefig"] = "grid"
    rows, cols = lay or [5, 2]
    kw["figsize"] = (2.0, 2.0) if case["seed"] % 2 else None
    w = [[_want(case, d, i, j) for i, j in zip(case["y"], case["yu"])] for _, d in probs]
    xs = [_want(case, d, case["x"], case["xu"]) for _, d in probs]
    saved = []
    from matplotlib.figure import Figure
    orig = Figure.savefig

    def record(self, fname, *a, **k):
        saved.append((self.number, str(fname), [len(ax.lines) for ax in self.axes], [ax.get_ylabel() for ax in self.axes]))
        return orig(self, fname, *a, **k)
    Figure.savefig = record
    try:
        _grid(probs, xs, w, case, kw)
    finally:
        Figure.savefig = orig
    _judge_grid(case, probs, xs, w, rows, cols, saved, ctx)


def _grid(probs, xs, w, case, kw):
    plot_trajectory_grid([p for p, _ in probs], xs[0][0], xs[0][1], [y[0] for y in w[0]], [y[1] for y in w[0]], list(case["phases"]), **kw)


def _judge_grid(case, probs, xs, w, rows, cols, saved, ctx):
    figs = [plt.figure(i) for i in plt.get_fignums()]
    per = rows * cols
    ny = len(case["y"])
    need(len(figs) == -(-ny // per), "%d pages for %d variables, %d per page" % (len(figs), ny, per))
    for i in range(ny):
        fig = figs[i // per]
        need(len(fig.axes) == per, "page has %d axes" % len(fig.axes))
        k = i % per
        ax = fig.axes[k]
        need(len(ax.lines) == len(probs), "%d curves for %d cases" % (len(ax.lines), len(probs)))
        for j in range(len(probs)):
            _check_line(ax.lines[j], xs[j][2], w[j][i][2], case["marker"], "variable %d case %d" % (i, j))
        want = w[0][i][0] if not case["yl"] else case["yl"][i]
        need(ax.get_ylabel() == (want or ""), "y label %r instead of %r" % (ax.get_ylabel(), want))
        if k // cols == rows - 1:
            need(ax.get_xlabel() == (case["xl"] or xs[0][0]), "x label %r" % ax.get_xlabel())
    for k in range(ny, len(figs) * per):
        need(len(figs[k // per].axes[k % per].lines) == 0, "curve in an unused cell")
    files = sorted(glob.glob("grid_*.pdf"))
    need(len(files) == (len(figs) if case["save"] else 0), "saved pages: %s" % files)
    if case["save"]:  # every page as it is shown, pages in the order of their numbers
        last = {}
        for number, fname, lines, labels in saved:
            last[os.path.basename(fname)] = (number, lines, labels)
        order = sorted(last, key=lambda f: int(f[:-4].split("_")[-1]))
        need([last[f][0] for f in order] == [f.number for f in figs], "pages %s saved as %s" % ([last[f][0] for f in order], order))
        for f, fig in zip(order, figs):
            need(last[f][1] == [len(ax.lines) for ax in fig.axes] and last[f][2] == [ax.get_ylabel() for ax in fig.axes],
                 "%s was saved with %s curves labelled %s, the page shows %s" % (f, last[f][1], last[f][2], [len(ax.lines) for ax in fig.axes]))
    plt.close("all")
    if len(case["phases"]) > 1 or ny > 1 or len(probs) > 1:
        ctx.ok("pages=%d" % len(figs), "cases=%d" % len(probs))


@st.composite
def wing(draw):
    nx, ny = draw(st.integers(2, 5)), draw(st.integers(2, 6))
    return dict(nx=nx, ny=ny, dy=draw(arr(ny - 1, fl(0.2, 3.0))), le=draw(arr(ny, fl(0.0, 3.0))), ch=draw(arr(ny, fl(0.5, 4.0))),
                f=draw(arr(nx - 1, fl(0.2, 1.0))), z=draw(arr(ny, sfl(0.5))), p=draw(sfl(7.0)), other=draw(sfl(3.0)), dirn=draw(st.integers(0, 2)),
                wing=draw(st.sampled_from(["left", "right", "both"])), own=draw(st.booleans()), off=draw(st.booleans()), xlim=draw(st.booleans()),
                press=draw(arr((nx - 1) * (ny - 1), sfl(5.0))), shear=draw(st.sampled_from([0.0, 0.0, 0.3, -0.4])))


def _mesh(c):
    y = -np.concatenate([np.cumsum(np.array(c["dy"])[::-1])[::-1], [0.0]])
    f = np.concatenate([[0.0], np.cumsum(c["f"])])
    f = f / f[-1]
    m = np.zeros((c["nx"], c["ny"], 3))
    m[:, :, 0] = np.array(c["le"])[None, :] + f[:, None] * np.array(c["ch"])[None, :]
    m[:, :, 1] = y[None, :]
    if c["shear"]:  # leading and trailing edges of different span, streamwise sections of one chord: the mean width times the length is the area
        m[:, :, 0] = f[:, None] * c["ch"][0]
        m[:, :, 1] *= 1.0 + c["shear"] * f[:, None]
    m[:, :, 2] = np.array(c["z"])[None, :]
    return m


@sub("C25", "mesh", wing, quick=120, thorough=2500, shards=4, rule="any mesh")
def mesh(case, ctx):
    m = _mesh(case)
    keep = m.copy()
    plt.close("all")
    if case["own"]:
        fig, ax = plt.subplots()
        r = plot_OAS_mesh(m, ax=ax, set_xlim=case["xlim"], turn_off_axis=case["off"])
        need(r is None, "axis given but something was returned")
    else:
        fig, ax = plot_OAS_mesh(m, set_xlim=case["xlim"], turn_off_axis=case["off"])
    need(np.array_equal(m, keep), "the mesh handed in was modified")
    segs = []
    for col in ax.collections:
        if isinstance(col, matplotlib.collections.LineCollection):
            segs.extend(np.asarray(s) for s in col.get_segments())
    nx, ny = case["nx"], case["ny"]
    full = 2 * ny - 1
    span = [s for s in segs if len(s) == full]
    chord = [s for s in segs if len(s) == nx]
    if full == nx:
        span, chord = segs[:nx], segs[nx:]
    need(len(span) == nx and len(chord) == full, "%d spanwise and %d chordwise lines" % (len(span), len(chord)))
    mirror = lambda v: np.concatenate([v, -v[-2::-1]])  # noqa: E731
    for i in range(nx):
        Y = mirror(keep[i, :, 1])
        X = np.concatenate([keep[i, :, 0], keep[i, -2::-1, 0]])
        close(span[i], np.stack([Y, -X], axis=1), 1e-12, 1e-12, "spanwise line %d" % i)
    for j in range(full):
        jj = j if j < ny else 2 * ny - 2 - j
        close(chord[j], np.stack([(1 if j < ny else -1) * keep[:, jj, 1], -keep[:, jj, 0]], axis=1), 1e-12, 1e-12, "chordwise line %d" % j)
    Y = mirror(keep[0, :, 1])
    if case["xlim"] and not case["shear"]:
        close(ax.get_xlim(), (Y[0], Y[-1]), 1e-12, 0, "x limits")
    need(ax.axison == (not case["off"]), "axis switched %s" % ("on" if ax.axison else "off"))
    plt.close("all")
    ctx.ok("own axis" if case["own"] else "new figure")


class _Rec:
    """Stands in for an axis: records what would be drawn."""

    def __init__(self):
        self.c, self.lim, self.off = None, None, False

    def contourf(self, x, y, z, *a, **k):
        self.c = (np.array(x), np.array(y), np.array(z), k)
        return "contours"

    def set_aspect(self, *a, **k):
        pass

    def set_axis_off(self):
        self.off = True

    def set_xlim(self, *a):
        self.lim = a[0] if len(a) == 1 else a


@sub("C25", "forces", wing, quick=400, thorough=8000, shards=4, rule="non-zero pressure field")
def forces(case, ctx):
    m = _mesh(case)
    nx, ny = case["nx"], case["ny"]
    w = np.diff(m[:, :, 1], axis=1)
    ln = np.diff(m[:, :, 0], axis=0)
    area = 0.5 * (w[1:] + w[:-1]) * 0.5 * (ln[:, 1:] + ln[:, :-1])
    P = np.array(case["press"]).reshape(nx - 1, ny - 1)

    def draw(press):
        f = np.full((nx - 1, ny - 1, 3), case["other"])
        f[:, :, case["dirn"]] = press * area
        r = _Rec()
        out = plot_OAS_force_contours(m.copy(), f, ax=r, wing=case["wing"], force_dir=case["dirn"], set_xlim=case["xlim"], turn_off_axis=case["off"], levels=7)
        need(out == "contours", "contour set not returned")
        need(r.c[3] == {"levels": 7}, "keyword arguments passed on: %s" % r.c[3])
        return r

    r = draw(np.full_like(P, case["p"]))
    X, Y, Z, _ = r.c
    ys, xs = m[:, :, 1], m[:, :, 0]
    if case["wing"] == "left":
        wx, wy = ys, -xs
    elif case["wing"] == "right":
        wx, wy = -ys, -xs
    else:
        wx, wy = np.hstack([ys, -ys[:, ::-1]]), np.hstack([-xs, -xs[:, ::-1]])
    if X.shape == wx.shape:
        close(X, wx, 1e-12, 1e-12, "spanwise positions")
        close(Y, wy, 1e-12, 1e-12, "chordwise positions")
    else:  # the root line drawn once
        close(X, np.hstack([ys, -ys[:, -2::-1]]), 1e-12, 1e-12, "spanwise positions")
    close(Z, np.full_like(Z, case["p"]), 1e-9, 1e-12, "uniform force per area %g, nodal values" % case["p"])
    # arbitrary panel pressures: nodal value within the range of the adjacent panels, mirrored symmetric
    Z = draw(P).c[2]
    L = Z[:, :ny]
    for i in range(nx):
        for j in range(ny):
            nb = P[max(i - 1, 0):i + 1, max(j - 1, 0):j + 1]
            need(nb.min() - 1e-9 <= L[i, j] <= nb.max() + 1e-9, "node (%d,%d): %g outside adjacent panel values %s" % (i, j, L[i, j], nb.tolist()))
    if case["wing"] == "both":
        close(Z, Z[:, ::-1], 1e-12, 1e-12, "mirrored pressures")
    need(r.off == case["off"], "axis off")
    need((r.lim is not None) == case["xlim"], "x limits set")
    if case["p"] != 0:
        ctx.ok(case["wing"], "dir%d" % case["dirn"])


@st.composite
def badw(draw):
    return dict(wing=draw(st.sampled_from(["Left", "", "all", "rigth"])), d=draw(st.sampled_from([-1, 3, 7])), c=draw(wing()), which=draw(st.booleans()))


@sub("C25", "refusals", badw, quick=30, thorough=200, rule="invalid wing or direction")
def refusals(case, ctx):
    m = _mesh(case["c"])
    f = np.ones((m.shape[0] - 1, m.shape[1] - 1, 3))
    try:
        if case["which"]:
            plot_OAS_force_contours(m, f, ax=_Rec(), wing=case["wing"])
        else:
            plot_OAS_force_contours(m, f, ax=_Rec(), force_dir=case["d"])
    except ValueError:
        ctx.ok()
        return
    raise Violation("accepted an invalid wing or force direction")
