"""Shared generators, OpenMDAO plumbing and comparisons."""
import copy
import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

from .core import Violation, need, HarnessError  # noqa: F401

Q = 255 * 256


# ------------------------------------------------------------------ generators
def _unit():
    """0..Q, uniform apart from extra weight on both ends; shrinks to 0.  Two small integers,
    because Hypothesis draws integers from wide ranges mostly close to 0."""
    byte = st.integers(0, 255)
    return st.tuples(byte, byte).map(lambda t: 0 if t[0] == 0 else (Q if t[0] == 255 else t[0] * 256 + t[1]))


def fl(lo, hi):
    """Quantised floats in [lo, hi]: no subnormals, shrink towards lo."""
    lo, hi = float(lo), float(hi)
    return _unit().map(lambda k: lo + (hi - lo) * (k / Q))


def logfl(lo, hi):
    a, b = np.log(lo), np.log(hi)
    return _unit().map(lambda k: float(np.exp(a + (b - a) * (k / Q))))


def sfl(mag):
    """Signed, uniform over [-mag, mag], shrinks to 0."""
    return st.tuples(st.integers(0, 1), _unit()).map(lambda t: (mag if t[0] else -mag) * t[1] / Q + 0.0)


def arr(n, elem):
    return st.lists(elem, min_size=n, max_size=n)


@st.composite
def vec(draw, n, lo, hi):
    """A vector of n entries in [lo, hi]: independent / ramp / constant / permuted ramp / with repeats."""
    kind = draw(st.sampled_from(["indep", "indep", "indep", "ramp", "const", "repeat"]))
    if kind == "const":
        return [draw(fl(lo, hi))] * n
    if kind == "ramp":
        a, b = draw(fl(lo, hi)), draw(fl(lo, hi))
        return [float(v) for v in np.linspace(a, b, n)]
    if kind == "repeat":
        pool = draw(arr(2, fl(lo, hi)))
        return [pool[draw(st.integers(0, 1))] for _ in range(n)]
    return draw(arr(n, fl(lo, hi)))


@st.composite
def tail(draw, lo, hi, big):
    """An integer in [lo, hi], now and then (1 in 9) one up to `big`."""
    if draw(st.integers(0, 8)) == 8:
        return draw(st.integers(hi, big))
    return draw(st.integers(lo, hi))


@st.composite
def arrs(draw, n, elem):
    """n values; long vectors are built from a few drawn values so that cases stay small."""
    if n <= 24:
        return draw(arr(n, elem))
    base = draw(arr(7, elem))
    return [base[i % 7] * (1.0 + (i * 37 % 11) / 16.0) for i in range(n)]


odd = lambda hi=5: st.integers(1, hi).map(lambda k: 2 * k + 1)  # noqa: E731
bools = st.booleans()


# ------------------------------------------------------------------ problems
def build(comp, inputs=None, derivs=False, solver=None, pre=None):
    """Problem whose model holds `comp` with everything promoted; inputs {name: value | [value, units]}."""
    p = om.Problem(reports=False)
    p.model.add_subsystem("comp", comp, promotes=["*"])
    if pre:
        pre(p.model)
    if solver:
        solver(p.model)
    p.setup(check=False, force_alloc_complex=False)
    if inputs:
        setv(p, inputs)
    return p


def setv(p, inputs):
    for k, v in inputs.items():
        if isinstance(v, tuple):
            p.set_val(k, np.asarray(v[0], dtype=float), units=v[1])
        else:
            p.set_val(k, np.asarray(v, dtype=float))


def run(comp, inputs=None, **kw):
    p = build(comp, inputs, **kw)
    p.run_model()
    return p


def gv(p, name, units=None):
    return np.array(p.get_val(name, units=units), dtype=float)


def converged(group):
    """Re-evaluate the residuals of a solved group: max |R| scaled."""
    group.run_apply_nonlinear()
    return float(np.max(np.abs(group._residuals.asarray()))) if len(group._residuals) else 0.0


# ------------------------------------------------------------------ comparisons
def close(got, want, rtol=1e-9, atol=0.0, what="", info=None):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        if got.size == want.size:
            got = got.reshape(want.shape)
        else:
            try:
                want = np.broadcast_to(want, got.shape)
            except ValueError:
                raise Violation("%s: shape %s instead of %s" % (what, got.shape, want.shape))
    if not np.all(np.isfinite(got) | ~np.isfinite(want)):
        raise Violation("%s: non-finite result %s, expected %s%s" % (what, got, want, "" if info is None else " | %s" % (info,)))
    scale = np.maximum(np.abs(got), np.abs(want))
    bad = np.abs(got - want) > rtol * scale + atol
    if np.any(bad):
        i = np.argmax(np.where(bad, np.abs(got - want) / (rtol * scale + atol + 1e-300), 0))
        raise Violation("%s: got %r, expected %r (worst entry %d: %r vs %r)%s" % (
            what, got.tolist(), want.tolist(), i, got.flat[i], want.flat[i], "" if info is None else " | %s" % (info,)))


def raises(fn, what, exc=Exception):
    """fn must be refused with an error raised by the code under test / framework."""
    try:
        fn()
    except exc as e:
        return e
    raise Violation("%s was accepted instead of refused" % what)


def conv(v, a, b):
    """Unit conversion by an independent factor table (never through the code under test)."""
    from openmdao.utils.units import convert_units

    return convert_units(np.asarray(v, dtype=float), a, b)


class Interpreter:
    """Brings modules back to the state they had when imported: whatever classes, globals and memoised functions have
    remembered since is forgotten, wherever the code keeps it."""

    def __init__(self, *modules):
        self.modules = modules
        self.classes = {c: dict(vars(c)) for m in modules for c in vars(m).values() if isinstance(c, type) and c.__module__ == m.__name__}
        self.globals = {m: {k: (v, copy.deepcopy(v) if isinstance(v, (dict, list, set)) and not k.startswith("__") else None) for k, v in vars(m).items()} for m in modules}

    def restart(self):
        for c, was in self.classes.items():
            for k in [k for k in vars(c) if k not in was]:
                delattr(c, k)
            for k, v in was.items():
                if vars(c).get(k, c) is not v and not k.startswith("__"):
                    setattr(c, k, v)
        for m, was in self.globals.items():
            for k in [k for k in vars(m) if k not in was]:
                delattr(m, k)
            for k, (v, content) in was.items():
                if k.startswith("__"):
                    continue
                if content is not None and v != content:
                    v.clear()
                    v.extend(copy.deepcopy(content)) if isinstance(v, list) else v.update(copy.deepcopy(content))
                if vars(m)[k] is not v:
                    setattr(m, k, v)
                if hasattr(v, "cache_clear"):
                    v.cache_clear()
