"""C09: automatic integration of tagged outputs and linking of phases.

A case is a generated tree of groups (integrating and plain, nested, promoted or not) holding rate
components with tagged and untagged outputs, put into one to four phases of a trajectory with a
generated set of links and exclusions.  The oracle integrates every tagged rate by hand (documented
Simpson recurrence), carries finals to initials along the links, and looks at nothing but values and
variable metadata at absolute paths.
"""
import warnings
import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

from ..core import sub, need, Violation
from ..lib import fl, sfl, arr, bools, close, raises
from .c02 import ref_integrate
from openconcept.mission import IntegratorGroup, PhaseGroup, TrajectoryGroup
from openconcept.utilities import Integrator

T = {"s": 1.0, "min": 60.0, "h": 3600.0}
FAM = {"mass": {"kg": 1.0, "g": 1e-3, "t": 1e3}, "len": {"m": 1.0, "km": 1e3, "cm": 1e-2}, "none": {None: 1.0}}


# ------------------------------------------------------------------ the model under test
class Rates(om.ExplicitComponent):
    """y_k = a_k * in_k (elementwise); the outputs carry the generated tags."""

    def initialize(self):
        self.options.declare("n")
        self.options.declare("outs")

    def setup(self):
        n = self.options["n"]
        for o in self.options["outs"]:
            self.add_input("in_" + o["name"], val=np.zeros(n), units=o["in_units"])
            kw = {"tags": o["tags"]} if o["tags"] is not None else {}
            self.add_output(o["name"], val=np.full(n, 7.5), units=o["units"], **kw)
            r = np.arange(n)
            self.declare_partials(o["name"], "in_" + o["name"], rows=r, cols=r, val=o["a"] * np.ones(n))

    def compute(self, i, o):
        for k in self.options["outs"]:
            o[k["name"]] = k["a"] * i["in_" + k["name"]]


def tags_of(o):
    if o["tag"] == "no":
        return o["extra"]
    t = ["integrate", "state_name:" + o["state"]]
    if o["sunits"] is not None:
        t.append("state_units:" + o["sunits"])
    if o["val"] is not None:
        t.append("state_val:%r" % o["val"])
    if o["lower"] is not None:
        t.append("state_lower:%r" % o["lower"])
    if o["upper"] is not None:
        t.append("state_upper:%r" % o["upper"])
    if o["promote"] is not None:
        t.append("state_promotes:%s" % o["promote"])
    k = o["rot"] % len(t)
    return t[k:] + t[:k] + (o["extra"] or [])


def fill(group, g, n):
    """Add the contents of tree node `g` to an OpenMDAO group."""
    for c in g["comps"]:
        if not c["outs"]:
            continue
        outs = [dict(name=o["name"], in_units=o["in_units"], units=o["units"], tags=tags_of(o), a=o["a"]) for o in c["outs"]]
        group.add_subsystem(c["name"], Rates(n=n, outs=outs), promotes_outputs=["*"] if c["promote"] else [])
    for u in g["uints"]:
        integ = Integrator(num_nodes=n, method="simpson", diff_units=u["tu"], time_setup="duration")
        for s in u["states"]:
            kw = {"start_name": s["state"] + "_begin", "end_name": s["state"] + "_end"} if s["custom"] else {}
            integ.add_integrand(s["state"], rate_name="rate_" + s["state"], units=s["sunits"], val=0.0, **kw)
        pin = {"dur": ["duration"], "all": ["*"], "none": []}[u["promote"]]
        group.add_subsystem(u["name"], integ, promotes_inputs=pin, promotes_outputs=["*"] if u["pout"] else [])
    for k in g["groups"]:
        group.add_subsystem(k["name"], make_group(k, n), promotes_outputs=["*"] if k["promote"] in ("outs", "all") else [],
                            promotes_inputs=["duration"] if k["pdur"] and has_dur(k) else [])
    # feeds: a rate's input comes from a state of this same group
    for c in g["comps"]:
        for o in c["outs"]:
            if o["feed"] is not None:
                src = o["feed"]
                group.connect(src["state"] if src["promote"] else "ode_integ." + src["state"], c["name"] + ".in_" + o["name"])


def has_dur(k):
    """Does promoting 'duration' out of this node match anything?"""
    return any(u["promote"] != "none" for u in k["uints"]) or any(c["pdur"] and has_dur(c) for c in k["groups"])


def make_group(k, n):
    if k["kind"] == "int":
        class G(IntegratorGroup):
            def setup(self):
                fill(self, k, n)
                if k["order"]:
                    names = [c["name"] for c in k["comps"] if c["outs"]]
                    rest = [u["name"] for u in k["uints"]] + [c["name"] for c in k["groups"]]
                    self.set_order((names + ["ode_integ"] + rest) if k["order"] == 1 else (rest + names + ["ode_integ"]))
        return G(num_nodes=n, **({"time_units": k["tu"]} if k["tu"] else {}))

    class P(om.Group):
        def setup(self):
            fill(self, k, n)
    return P()


def make_phase(ph):
    class Ph(PhaseGroup):
        def setup(self):
            self.add_subsystem("ivc", om.IndepVarComp("duration", val=ph["dur"], units=ph["dur_units"]), promotes_outputs=["duration"])
            fill(self, ph["tree"], ph["n"])
    return Ph(num_nodes=ph["n"])


def build(case):
    def contents(self):
        obj = {}
        for ph in case["phases"]:
            obj[ph["name"]] = self.add_subsystem(ph["name"], make_phase(ph), promotes_outputs=["*"] if ph["promote"] else [])
        for a, b, skip in case["links"]:
            names = [case["phases"][a]["name"], case["phases"][b]["name"]]
            self.link_phases(obj[names[0]], obj[names[1]], *([] if skip is None else [list(skip)]))

    class Dyn(TrajectoryGroup):
        def setup(self):
            contents(self)

    def Traj():
        if not case["static"]:
            return Dyn()
        t = TrajectoryGroup()
        contents(t)
        return t
    p = om.Problem(reports=False)
    path, m = "", p.model
    if case["depth"] == 0:
        p.model = m = Traj()
    else:
        for i in range(case["depth"] - 1):
            m = m.add_subsystem("w%d" % i, om.Group())
            path += "w%d." % i
        m.add_subsystem("traj", Traj())
        path += "traj."
    p.model.nonlinear_solver = om.NonlinearBlockGS(maxiter=60, atol=1e-13, rtol=1e-15, iprint=-1, err_on_non_converge=False)
    p.model.linear_solver = om.LinearBlockGS(maxiter=2, iprint=-1)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p.setup(check=False)
        if case["resetup"]:
            p.final_setup()
            p.setup(check=False)
    return p, path


# ------------------------------------------------------------------ walking the spec
def walk(tree, prefix="", top=True):
    """(node, path prefix) of every group node below and including this one."""
    yield tree, prefix
    for k in tree["groups"]:
        yield from walk(k, prefix + k["name"] + ".")


def states(ph):
    """Every state of a phase: dict(rel, init, final, out spec, owner prefix...)."""
    res = []
    for g, pre in walk(ph["tree"]):
        for c in g["comps"]:
            for o in c["outs"]:
                if o["tag"] == "yes":
                    res.append(dict(rel=pre + "ode_integ." + o["state"], init=pre + "ode_integ." + o["state"] + "_initial",
                                    fin=pre + "ode_integ." + o["state"] + "_final", o=o, kind="auto", tu=g["tu"] or "s", src=pre + c["name"] + ".in_" + o["name"],
                                    rate=pre + c["name"] + "." + o["name"], integ=pre + "ode_integ"))
        for u in g["uints"]:
            for s in u["states"]:
                a, b = ("_begin", "_end") if s["custom"] else ("_initial", "_final")
                p = pre + u["name"] + "."
                res.append(dict(rel=p + s["state"], init=p + s["state"] + a, fin=p + s["state"] + b, o=s, kind="user", tu=u["tu"], src=p + "rate_" + s["state"], integ=pre + u["name"]))
    return res


# ------------------------------------------------------------------ generator
NAMES = ["q%d", "fltcond|h%d", "ph0_x%d", "T_%d", "m.%d", "range%d"]

# phases whose names are parts of one another
PHASES = [["ph0", "ph1", "ph2", "ph3"], ["ph0", "ph1", "ph2", "ph3"], ["a", "ba", "cba", "dcba"], ["climb", "climb2", "climb22", "reclimb"], ["v1", "v1v0", "v0v1", "v0"]]


@st.composite
def trees(draw, counter, depth, rootlike=False):
    cnt = counter
    kind = "plain" if rootlike else draw(st.sampled_from(["int", "int", "int", "plain"]))
    tail = draw(st.sampled_from(["", "", "%s", "_%s", "%s_"])) if cnt.get("pn") else ""  # the name of a group may end with, or contain, that of a phase
    if tail:
        tail = tail % draw(st.sampled_from(cnt["pn"]))
    g = dict(name="g%d%s" % (cnt["g"], tail), kind=kind, tu=draw(st.sampled_from([None, None, "s", "min", "h"])), order=draw(st.integers(0, 2)),
             promote=draw(st.sampled_from(["none", "outs", "all"])), pdur=draw(bools), comps=[], uints=[], groups=[])
    cnt["g"] += 1
    if kind == "int":
        prev = []
        used = []
        for ci in range(draw(st.integers(0, 3))):
            c = dict(name="c%d" % ci, promote=draw(bools), outs=[])
            for oi in range(draw(st.integers(1, 2))):
                k = cnt["o"]
                cnt["o"] += 1
                fam = draw(st.sampled_from(["mass", "mass", "len", "none"]))
                tag = draw(st.sampled_from(["yes", "yes", "yes", "no"]))
                dup = draw(st.integers(0, 4)) == 0 and not used
                tmpl = draw(st.sampled_from([s for s in NAMES if "." not in s]))
                su = draw(st.sampled_from(list(FAM[fam])))
                rt = draw(st.sampled_from(list(T)))
                ru = None if su is None else "%s/%s" % (draw(st.sampled_from(list(FAM[fam]))), rt)
                if dup:
                    used.append(1)
                    g["promote"] = "none"
                pr = None if dup else draw(st.sampled_from([None, True, False]))
                name = tmpl % k
                if cnt["names"] and draw(st.integers(0, 3)) == 0:  # a name that contains another state's name
                    other = cnt["names"][draw(st.integers(0, len(cnt["names"]) - 1))]
                    name = draw(st.sampled_from(["n%d%s", "n%d_%s"])) % (k, other) if draw(bools) else "%s_n%d" % (other, k)
                if not dup:
                    cnt["names"].append(name)
                o = dict(name="rate%d" % k, tag=tag, state="dup" if dup else name, fam=fam, sunits=su, units=ru, a=draw(sfl(3.0)),
                         val=draw(st.one_of(st.none(), sfl(50.0))), lower=draw(st.one_of(st.none(), fl(-900.0, -100.0))), upper=draw(st.one_of(st.none(), fl(1e5, 1e6))),
                         promote=pr, rot=draw(st.integers(0, 5)), extra=draw(st.sampled_from([None, None, ["mine"], ["mine", "state_flag"]])), feed=None, in_units=None)
                if tag == "no":
                    o["extra"] = draw(st.sampled_from([None, ["state_name:nope%d" % k, "state_units:kg"], ["not_integrate"], ["integrated"]]))
                if prev and draw(st.integers(0, 2)) == 0:
                    f = prev[draw(st.integers(0, len(prev) - 1))]
                    o["feed"] = dict(state=f["state"], promote=f["promote"] is True)
                    o["in_units"] = f["sunits"]
                if tag == "yes":
                    prev.append(o)
                c["outs"].append(o)
            g["comps"].append(c)
    if draw(st.integers(0, 3)) == 0:
        k = cnt["o"]
        cnt["o"] += 1
        ss = []
        for j in range(draw(st.integers(1, 2))):
            ss.append(dict(state="u%d_%d" % (k, j), sunits=draw(st.sampled_from(["kg", "g", "km"])), custom=draw(bools)))
        g["uints"].append(dict(name="ui%d" % k, tu=draw(st.sampled_from(["s", "min", "h"])), promote=draw(st.sampled_from(["none", "dur", "dur", "all"])), pout=draw(bools), states=ss))
        if g["kind"] == "plain" and draw(bools):
            g["uints"].append(dict(name="uj%d" % k, tu="s", promote="dur", pout=False, states=[dict(state="w%d" % k, sunits="kg", custom=False)]))
    if depth > 0:
        for i in range(draw(st.integers(1 if rootlike else 0, 2))):
            g["groups"].append(draw(trees(cnt, depth - 1)))
    return g


def prune(tree, draw):
    """A copy of the tree with some outputs, components and groups left out."""
    t = dict(tree)
    keep = []
    fed = {o["feed"]["state"] for c in tree["comps"] for o in c["outs"] if o["feed"] is not None}
    for c in tree["comps"]:
        outs = [o for o in c["outs"] if o["state"] in fed or draw(st.integers(0, 4))]
        keep.append(dict(c, outs=outs))
    t["comps"] = keep
    t["groups"] = [prune(k, draw) for k in tree["groups"] if draw(st.integers(0, 5))]
    return t


def prom_in_phase(tree, rel, o, kind, uout=None):
    """Promoted name, inside the phase, of the state at relative path `rel`."""
    parts = rel.split(".")
    groups, leaf, integ = parts[:-2], parts[-1], parts[-2]
    if kind == "auto":
        name = leaf if o["promote"] is True else integ + "." + leaf
    else:
        name = leaf if uout else integ + "." + leaf
    node, chain = tree, []
    for gname in groups:
        node = [k for k in node["groups"] if k["name"] == gname][0]
        chain.append(node)
    for nd in reversed(chain):  # promoting "*" drops the group's own name from every name below it
        if nd["promote"] == "none":
            name = nd["name"] + "." + name
    return name


@st.composite
def cases(draw):
    pn = draw(st.sampled_from(PHASES))
    cnt = {"g": 0, "o": 0, "names": [], "pn": pn}
    base = draw(trees(cnt, draw(st.integers(1, 3)), True))
    nph = draw(st.integers(1, 4))
    phases = []
    prom = draw(st.integers(-3, nph - 1))
    for i in range(nph):
        t = base if draw(bools) else prune(base, draw)
        n = draw(st.sampled_from([1, 3, 5, 5, 7, 11])) if draw(bools) else 5
        phases.append(dict(name=pn[i], n=n, dur=draw(fl(0.5, 40.0)), dur_units=draw(st.sampled_from(list(T))), promote=(i == prom), tree=t, x=draw(arr(24, sfl(4.0))), init=draw(arr(12, sfl(30.0)))))
    links = []
    for j in range(1, nph):
        if draw(st.integers(0, 4)) == 0:
            continue
        i = j - 1 if draw(bools) else draw(st.integers(0, j - 1))
        s1 = states(phases[i])
        skip = None
        if draw(bools):
            skip = []
            for s in s1:
                if draw(st.integers(0, 3)) == 0:
                    if draw(bools):
                        skip.append(s["rel"])
                    else:
                        uo = None
                        if s["kind"] == "user":
                            uo = [u["pout"] for g, pre in walk(phases[i]["tree"]) for u in g["uints"] if pre + u["name"] == s["integ"]][0]
                        skip.append(prom_in_phase(phases[i]["tree"], s["rel"], s["o"], s["kind"], uo))
            if draw(st.integers(0, 3)) == 0:
                skip.append("no_such_state")
            leaves = sorted({s["rel"].split(".")[-1] for s in s1})
            if leaves and draw(st.integers(0, 3)) == 0:  # part of a path: names a state only where it is the promoted name of one
                leaf = draw(st.sampled_from(leaves))
                skip.append(draw(st.sampled_from([leaf, "ode_integ." + leaf, leaf[:-1], leaf[1:]])))
        links.append([i, j, skip])
    return dict(phases=phases, links=links, depth=draw(st.integers(0, 2)), resetup=draw(st.integers(0, 5)) == 0, static=draw(st.integers(0, 3)) == 0)


def skipped_rels(case, i, skip):
    res = set()
    ph = case["phases"][i]
    for s in states(ph):
        uo = None
        if s["kind"] == "user":
            uo = [u["pout"] for g, pre in walk(ph["tree"]) for u in g["uints"] if pre + u["name"] == s["integ"]][0]
        if skip and (s["rel"] in skip or prom_in_phase(ph["tree"], s["rel"], s["o"], s["kind"], uo) in skip):
            res.add(s["rel"])
    return res


@sub("C09", "trajectory", cases(), quick=1200, thorough=15000, shards=6, rule="at least two tagged states somewhere, or at least one state carried over a link", max_s=300)
def trajectory(case, ctx):
    p, root = build(case)
    per = [states(ph) for ph in case["phases"]]
    total = sum(map(len, per))
    # initial guesses of the states (state_val) are visible before anything runs
    # inputs
    for ph, ss in zip(case["phases"], per):
        k = 0
        for g, pre in walk(ph["tree"]):
            for c in g["comps"]:
                for o in c["outs"]:
                    o_x = np.interp(np.linspace(0, 1, ph["n"]), np.linspace(0, 1, 6), (ph["x"] * 2)[k % 18:k % 18 + 6])
                    if o["feed"] is None:
                        p.set_val(root + ph["name"] + "." + pre + c["name"] + ".in_" + o["name"], o_x)
                    k += 1
    linked = {}
    for i, j, skip in case["links"]:
        sk = skipped_rels(case, i, skip)
        here = {s["rel"] for s in per[i]}
        for s in per[j]:
            if s["rel"] in here and s["rel"] not in sk:
                linked[(j, s["rel"])] = i
    for j, (ph, ss) in enumerate(zip(case["phases"], per)):
        for m, s in enumerate(ss):
            if (j, s["rel"]) not in linked:
                p.set_val(root + ph["name"] + "." + s["init"], ph["init"][m % 12])
            if s["kind"] == "user":
                p.set_val(root + ph["name"] + "." + s["src"], np.linspace(ph["x"][m % 24], ph["x"][(m + 5) % 24], ph["n"]))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p.final_setup()
        # metadata: names, units, bounds and guesses as tagged, and nothing else
        for ph, ss in zip(case["phases"], per):
            integs = {}
            for s in ss:
                integs.setdefault(s["integ"], []).append(s)
            for g, pre in walk(ph["tree"]):
                if g["kind"] == "int":
                    integs.setdefault(pre + "ode_integ", [])
            for ipath, sl in integs.items():
                comp = p.model._get_subsystem(root + ph["name"] + "." + ipath)
                need(comp is not None, "no integrator at %s" % ipath)
                meta = comp.get_io_metadata(iotypes=("output",), metadata_keys=("units", "lower", "upper", "val"))
                want = {x.split(".")[-1] for s in sl for x in (s["rel"], s["fin"])}
                need(set(meta) == want, "integrator %s of phase %s integrates %s instead of %s" % (ipath, ph["name"], sorted(meta), sorted(want)))
                for s in sl:
                    for nm in (s["rel"], s["fin"]):
                        mt, o = meta[nm.split(".")[-1]], s["o"]
                        need(mt["units"] == o["sunits"], "state %s has units %r, tagged %r" % (nm, mt["units"], o["sunits"]))
                        if s["kind"] == "auto":
                            for side, dflt in (("lower", -1e30), ("upper", 1e30)):
                                b = mt[side]
                                w = dflt if o[side] is None else o[side]
                                need(b is not None and np.all(np.asarray(b) == w), "state %s has %s bound %r, tagged %r" % (nm, side, b, w))
                            need(np.all(np.asarray(mt["val"]) == (0.0 if o["val"] is None else o["val"])), "state %s starts from guess %r, tagged state_val %r" % (nm, mt["val"], o["val"]))
        p.run_model()
    # values
    finals = {}
    for j, (ph, ss) in enumerate(zip(case["phases"], per)):
        n, P_ = ph["n"], root + ph["name"] + "."
        dur = ph["dur"] * T[ph["dur_units"]]
        k, xin = 0, {}
        for g, pre in walk(ph["tree"]):
            for c in g["comps"]:
                for o in c["outs"]:
                    xin[pre + c["name"] + ".in_" + o["name"]] = np.interp(np.linspace(0, 1, n), np.linspace(0, 1, 6), (ph["x"] * 2)[k % 18:k % 18 + 6])
                    k += 1
        vals = {}
        for m, s in enumerate(ss):
            o = s["o"]
            f = FAM["mass" if o["sunits"] in FAM["mass"] else "len" if o["sunits"] in FAM["len"] else "none"]
            if s["kind"] == "auto":
                x = xin[s["src"]]
                if o["feed"] is not None:
                    x = vals[s["integ"] + "." + o["feed"]["state"]]
                rate = o["a"] * x
                if o["units"] is not None:
                    q, t = o["units"].split("/")
                    rate = rate * f[q] / T[t] / f[o["sunits"]] * T[s["tu"]]  # per tu, in state units
            else:
                rate = np.linspace(ph["x"][m % 24], ph["x"][(m + 5) % 24], n)
            q0 = ph["init"][m % 12]
            if (j, s["rel"]) in linked:
                i = linked[(j, s["rel"])]
                v, u = finals[(i, s["rel"])]
                q0 = v * (f[u] / f[o["sunits"]] if u is not None else 1.0)
            h = dur / T[s["tu"]] / max(n - 1, 1)
            q = ref_integrate(rate, h, q0, "simpson")
            vals[s["rel"]] = q
            finals[(j, s["rel"])] = (q[-1], o["sunits"])
            mag = abs(q0) + np.max(np.abs(rate)) * h * n + 1e-30
            what = "phase %s state %s" % (ph["name"], s["rel"])
            close(p.get_val(P_ + s["init"])[0], q0, 1e-9, 1e-11 * mag, what + (": initial value (linked from phase %s)" % linked[(j, s["rel"])] if (j, s["rel"]) in linked else ": initial value"))
            close(p.get_val(P_ + s["rel"]), q, 1e-9, 1e-10 * mag, what)
            close(p.get_val(P_ + s["fin"])[0], q[-1], 1e-9, 1e-10 * mag, what + " final")
    if linked:
        ctx.tag("linked")
    if any(sk for _, _, sk in case["links"]):
        ctx.tag("skipping")
    if total < 2 and not linked:
        return
    ctx.ok()


# ------------------------------------------------------------------ helpers of IntegratorGroup
@st.composite
def helper_cases(draw):
    n = draw(st.sampled_from([1, 3, 5]))
    ns, npr = draw(st.integers(0, 2)), draw(st.integers(0, 2))
    if ns + npr == 0:
        ns = 1
    if ns + npr < 2:
        npr += 1
    return dict(n=n, ns=ns, np=npr, fac=draw(st.one_of(st.none(), arr(ns + npr, sfl(3.0)))), mult=draw(sfl(4.0)), tag=draw(bools), x=draw(arr(4, arr(n, sfl(5.0)))), dur=draw(fl(1, 9)),
                nmult=draw(st.integers(1, 2)), units=draw(st.sampled_from([None, "kg/s"])))


@sub("C09", "helpers", helper_cases(), quick=120, thorough=2000, shards=2, rule="every case", max_s=120)
def helpers(case, ctx):
    """promote_add / promote_mult: weighted sums and multiples of a group's variables, integrable by tag."""
    n, c = case["n"], case
    tot = c["ns"] + c["np"]
    u = c["units"]
    tags = ["integrate", "state_name:used", "state_promotes:True"] + (["state_units:kg"] if u else [])

    class G(IntegratorGroup):
        def setup(self):
            iv = om.IndepVarComp()
            for k in range(tot):
                iv.add_output("s%d" % k, val=np.zeros(n), units=u)
            iv.add_output("den", val=1.5 + np.arange(n), units=u)
            iv.add_output("wide", val=np.arange(3.0 * n).reshape(n, 3), units=u)
            self.add_subsystem("iv", iv, promotes_outputs=["s%d" % k for k in range(c["ns"], tot)])
            self.promote_mult("iv.den", "inverse", c["mult"], vec_size=n, units=u, divide=[True])
            self.promote_mult("iv.wide", "wider", c["mult"], vec_size=n, length=3, units=u, lower=-2.0, upper=9.0, val=0.5, desc="three wide")
            self.promote_add(["iv.wide", "iv.wide"], "widest", factors=[2.0, c["mult"]], vec_size=n, length=3, units=u, lower=-3.0, upper=8.0, val=0.25, desc="sum")
            self.promote_add(["iv.s%d" % k for k in range(c["ns"])], "total", promoted_sources=["s%d" % k for k in range(c["ns"], tot)], factors=c["fac"], vec_size=n, units=u)
            self.promote_mult("total", "scaled", c["mult"], vec_size=n, units=u, tags=tags if c["tag"] else None)
            if c["nmult"] > 1:
                self.promote_mult("scaled", "again", -0.5, vec_size=n, units=u)

    class Ph(PhaseGroup):
        def setup(self):
            self.add_subsystem("ivc", om.IndepVarComp("duration", val=c["dur"], units="s"), promotes_outputs=["duration"])
            self.add_subsystem("g", G(num_nodes=n), promotes_outputs=["*"])
    p = om.Problem(Ph(num_nodes=n), reports=False)
    p.model.nonlinear_solver = om.NonlinearBlockGS(maxiter=10, iprint=-1, err_on_non_converge=False)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p.setup(check=False)
        for k in range(tot):
            p.set_val("g.iv.s%d" % k if k < c["ns"] else "s%d" % k, c["x"][k])
        p.run_model()
    fac = c["fac"] if c["fac"] is not None else [1.0] * tot
    want = sum(fac[k] * np.array(c["x"][k]) for k in range(tot))
    close(p.get_val("total"), want, 1e-9, 1e-10, "promote_add")
    close(p.get_val("scaled"), c["mult"] * want, 1e-9, 1e-9, "promote_mult")
    close(p.get_val("inverse"), c["mult"] / (1.5 + np.arange(n)), 1e-9, 1e-9, "promote_mult with a divisor")
    wide = np.arange(3.0 * n).reshape(n, 3)
    close(p.get_val("wider"), c["mult"] * wide, 1e-9, 1e-9, "promote_mult of length 3")
    close(p.get_val("widest"), (2.0 + c["mult"]) * wide, 1e-9, 1e-9, "promote_add of length 3")
    meta = p.model.get_io_metadata(iotypes=("output",), metadata_keys=("lower", "upper", "desc", "units"))
    for nm, lo, up, de in (("wider", -2.0, 9.0, "three wide"), ("widest", -3.0, 8.0, "sum")):
        m = [m for m in meta.values() if m["prom_name"] == nm][0]
        need(np.all(m["lower"] == lo) and np.all(m["upper"] == up) and m["desc"] == de and m["units"] == u, "%s is declared with %s" % (nm, m))
    if c["nmult"] > 1:
        close(p.get_val("again"), -0.5 * c["mult"] * want, 1e-9, 1e-9, "second promote_mult")
    if c["tag"]:
        q = ref_integrate(c["mult"] * want, c["dur"] / max(n - 1, 1), 0.0, "simpson")
        close(p.get_val("used"), q, 1e-9, 1e-8, "integrated promote_mult output")
        close(p.get_val("used_final")[0], q[-1], 1e-9, 1e-8, "final of integrated promote_mult output")
    else:
        outs = p.model.get_io_metadata(iotypes=("output",))
        need(not any("ode_integ" in k for k in outs), "an untagged output was integrated: %s" % sorted(outs))
    ctx.ok()


# ------------------------------------------------------------------ refusals
@st.composite
def bad(draw):
    return dict(kind=draw(st.sampled_from(["no_name", "not_phase_1", "not_phase_2", "no_duration"])), n=draw(st.sampled_from([3, 5])), others=draw(st.integers(0, 2)), depth=draw(st.integers(0, 2)))


@sub("C09", "refusals", bad(), quick=60, thorough=300, shards=1, rule="every case", max_s=90)
def refusals(case, ctx):
    n = case["n"]

    class G(IntegratorGroup):
        def setup(self):
            outs = [dict(name="r%d" % k, in_units=None, units="kg/s", tags=["integrate", "state_name:q%d" % k, "state_units:kg"], a=1.0) for k in range(case["others"])]
            t = ["integrate", "state_units:kg"] + ([] if case["kind"] == "no_name" else ["state_name:z"])
            outs.append(dict(name="rz", in_units=None, units="kg/s", tags=t, a=1.0))
            self.add_subsystem("c", Rates(n=n, outs=outs))

    class Ph(PhaseGroup):
        def setup(self):
            if case["kind"] != "no_duration":
                self.add_subsystem("ivc", om.IndepVarComp("duration", val=3.0, units="s"), promotes_outputs=["duration"])
            m = self
            for d in range(case["depth"]):
                m = m.add_subsystem("w%d" % d, om.Group())
            m.add_subsystem("g", G(num_nodes=n))

    class Tr(TrajectoryGroup):
        def setup(self):
            a = self.add_subsystem("a", Ph(num_nodes=n))
            b = self.add_subsystem("b", Ph(num_nodes=n))
            o = self.add_subsystem("o", om.Group())
            self.link_phases(o if case["kind"] == "not_phase_1" else a, o if case["kind"] == "not_phase_2" else b)

    def go():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            p = om.Problem(Tr(), reports=False)
            p.setup(check=False)
            p.final_setup()
    exc = Exception if case["kind"] == "no_duration" else ValueError
    raises(go, case["kind"], exc)
    ctx.ok()
