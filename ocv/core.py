"""Driver: registry of sub-checks, sharded Hypothesis runs, shrinking, replay files, evidence.

A *sub-check* is one executable statement about openconcept: a Hypothesis strategy that draws a
JSON-able case and a function ``check(case, ctx)`` that rebuilds everything from the case, runs the
real code from /repo and compares it with an oracle.  It raises ``Violation`` when the property is
broken on that case.  Cases are plain JSON, so the shrunk case *is* the replay file.
"""
import hashlib
import json
import os
import sys
import time
import traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OCV_REPO", "/repo")


class Violation(AssertionError):
    """The property is broken on this case."""


class HarnessError(Exception):
    """The machinery itself is at fault; never reported as a violation."""


class _Stop(KeyboardInterrupt):
    """Ends a Hypothesis run at once (budget for shrinking used up)."""


def need(cond, msg="", *args):
    if not cond:
        raise Violation(msg % args if args else msg)


SUBS = {}


class Sub:
    def __init__(self, prop, name, strategy, check, quick, thorough, shards, rule, max_s):
        self.prop, self.name, self.strategy, self.check = prop, name, strategy, check
        self.quick, self.thorough, self.shards, self.rule, self.max_s = quick, thorough, shards, rule, max_s


def sub(prop, name, strategy, quick=100, thorough=None, shards=1, rule="", max_s=None):
    """Register a sub-check.  quick/thorough: examples in total over all shards."""

    def deco(fn):
        SUBS.setdefault(prop, []).append(
            Sub(prop, name, strategy, fn, quick, thorough or quick * 20, shards, rule, max_s)
        )
        return fn

    return deco


# ------------------------------------------------------------------ known findings
def load_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        return {e["key"]: e for e in json.load(f)["findings"]}


class Ctx:
    """Handed to every check: classification and known-finding bookkeeping."""

    def __init__(self, prop, findings):
        self.prop = prop
        self.findings = findings
        self.hit = {}
        self.reset()

    def reset(self):
        self.nontrivial = False
        self.tags = []
        self.skipped = False

    def ok(self, *tags):
        """This case exercised the property non-trivially."""
        self.nontrivial = True
        self.tags.extend(str(t) for t in tags)

    def tag(self, *tags):
        self.tags.extend(str(t) for t in tags)

    def known(self, key, what=""):
        """A discrepancy with exactly the signature of the listed finding `key`.

        Returns normally when the finding is listed as known for this property; raises otherwise."""
        e = self.findings.get(key)
        if e is None or e.get("status") != "known" or e.get("property") != self.prop:
            raise Violation("%s (not a listed finding: %s)" % (what, key))
        self.hit[key] = e["what"]


def _canon(case):
    return json.dumps(case, sort_keys=True, default=_default)


def _default(o):
    import numpy as np

    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.bool_):
        return bool(o)
    raise TypeError(type(o))


def _norm(case):
    """Case exactly as a replay would see it."""
    return json.loads(_canon(case))


def classify_exception(err):
    """'violation' or 'harness' for an exception that is not a Violation."""
    if isinstance(err, (MemoryError, HarnessError, OSError, ImportError)):
        tb = traceback.extract_tb(err.__traceback__)
        # an ImportError or OSError from inside the code under test counts as its failure
        if not isinstance(err, (MemoryError, HarnessError)) and tb and tb[-1].filename.startswith(REPO + "/"):
            return "violation"
        return "harness"
    frames = traceback.extract_tb(err.__traceback__)
    under_test = any(f.filename.startswith(REPO + "/") or "/openmdao/" in f.filename for f in frames)
    if under_test:
        return "violation"
    return "harness"


def run_case(s, case, ctx):
    """Run one case.  Raises Violation / HarnessError; returns None otherwise."""
    ctx.reset()
    try:
        s.check(_norm(case), ctx)
    except Violation:
        raise
    except Exception as err:  # noqa: BLE001
        import hypothesis.errors

        if isinstance(err, hypothesis.errors.HypothesisException):
            raise
        kind = classify_exception(err)
        txt = "".join(traceback.format_exception(type(err), err, err.__traceback__)[-6:])
        if kind == "violation":
            raise Violation("unexpected %s: %s\n%s" % (type(err).__name__, str(err)[:2000], txt)) from err
        raise HarnessError("%s\n%s" % (err, txt)) from err


def sub_seed(prop, name, shard, seed):
    h = hashlib.sha256(("%s/%s/%d/%d" % (prop, name, shard, seed)).encode()).digest()
    return int.from_bytes(h[:6], "big")


def run_shard(s, shard, n_examples, seed, t_end, shrink_s, findings):
    """Runs in a child process.  Returns a dict with the outcome."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    # Hypothesis repeats parts of earlier examples inside new ones ("mutations"); with numeric
    # cases that yields mostly near-duplicates, so every example is drawn afresh.
    from hypothesis.internal.conjecture.engine import ConjectureRunner
    if hasattr(ConjectureRunner, "generate_mutations_from"):
        ConjectureRunner.generate_mutations_from = lambda self, data: None

    res = dict(sub=s.name, shard=shard, evaluations=0, nontrivial=[], samples=[], tags={}, skipped=0,
               failure=None, harness=None, known={}, wall=0.0)
    ctx = Ctx(s.prop, findings)
    state = dict(first_fail=None, best=None, calls=0)
    seen = set()
    t0 = time.time()

    @hypothesis.seed(sub_seed(s.prop, s.name, shard, seed))
    @settings(
        max_examples=n_examples + (shard > 0), deadline=None, database=None, derandomize=False, print_blob=False,
        report_multiple_bugs=False, phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
    )
    @given(s.strategy() if callable(s.strategy) else s.strategy)
    def prop(case):
        state["calls"] += 1
        if shard > 0 and state["calls"] == 1:
            return  # Hypothesis starts with the simplest example: shard 0 has run it
        now = time.time()
        if state["first_fail"] is not None:
            if now - state["first_fail"] > shrink_s:
                raise _Stop()
        elif now > t_end and res["evaluations"] > 0:
            raise _Stop()
        counting = state["first_fail"] is None
        if counting:
            res["evaluations"] += 1
        try:
            run_case(s, case, ctx)
        except Violation as v:
            if state["first_fail"] is None:
                state["first_fail"] = time.time()
            text = _canon(case)
            if state["best"] is None or len(text) <= len(state["best"][0]):
                state["best"] = (text, str(v))
            raise
        except HarnessError as e:
            if state["first_fail"] is not None:
                raise
            res["harness"] = str(e)[-4000:]  # nothing to shrink: report it
            raise _Stop()
        if counting:
            for t in ctx.tags:
                res["tags"][t] = res["tags"].get(t, 0) + 1
            if ctx.skipped:
                res["skipped"] += 1
            if ctx.nontrivial:
                k = hashlib.sha1(_canon(case).encode()).hexdigest()[:16]
                if k not in seen:
                    seen.add(k)
                    if len(res["samples"]) < 2:
                        res["samples"].append(_norm(case))

    try:
        prop()
    except _Stop:
        pass
    except Violation:
        pass
    except HarnessError as e:
        res["harness"] = str(e)[-4000:]
    except BaseException as e:  # noqa: BLE001
        if state["best"] is None:
            res["harness"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    if state["best"] is not None:
        res["failure"] = dict(case=json.loads(state["best"][0]), message=state["best"][1])
    res["nontrivial"] = sorted(seen)
    res["known"] = ctx.hit
    res["wall"] = time.time() - t0
    return res


def _child(s, shard, n, seed, t_end, shrink_s, findings, out, scratch):
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    log = os.open(os.path.join(scratch, "log"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(log, 1)
    os.dup2(log, 2)
    sys.stdout = os.fdopen(1, "w", buffering=1)
    sys.stderr = os.fdopen(2, "w", buffering=1)
    try:
        r = run_shard(s, shard, n, seed, t_end, shrink_s, findings)
    except BaseException as e:  # noqa: BLE001
        r = dict(sub=s.name, shard=shard, evaluations=0, nontrivial=[], samples=[], tags={}, skipped=0,
                 failure=None, harness="".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:],
                 known={}, wall=0.0)
    with open(out + ".tmp", "w") as f:
        json.dump(r, f, default=_default)
    os.replace(out + ".tmp", out)
    sys.stdout.flush()
    os._exit(0)


def run_property(prop, tier, seed, scratch, jobs=None, only=None, scale=1.0, budget=None):
    subs = [s for s in SUBS.get(prop, []) if only is None or s.name in only]
    if not subs:
        raise HarnessError("no sub-checks for %s" % prop)
    findings = load_findings()
    jobs = jobs or min(8, os.cpu_count() or 1)
    t0 = time.time()
    if budget is None:
        budget = 150.0 if tier == "quick" else 3000.0
    hard = t0 + budget * 2 + 240
    shrink_s = 40.0 if tier == "quick" else 120.0
    tasks = []
    for s in subs:
        n = max(1, int((s.quick if tier == "quick" else s.thorough) * scale))
        sh = max(1, min(s.shards if tier == "quick" else max(s.shards, 8), n))
        for i in range(sh):
            tasks.append((s, i, max(1, n // sh)))
    # spread long ones first: shards of the same sub interleaved
    tasks.sort(key=lambda t: (t[1], -t[0].shards))
    running, results, pend = [], [], list(tasks)
    k = 0
    ctxm = mp.get_context("fork")
    failed = False
    while pend or running:
        while pend and len(running) < jobs and not failed:
            s, i, n = pend.pop(0)
            out = os.path.join(scratch, "r%d.json" % k)
            t_end = min(t0 + budget, time.time() + s.max_s) if (s.max_s and tier == "quick") else t0 + budget
            p = ctxm.Process(target=_child, args=(s, i, n, seed, t_end, shrink_s, findings, out,
                                                  os.path.join(scratch, "w%d" % k)))
            p.daemon = False
            p.start()
            running.append((p, out, s, i))
            k += 1
        if failed and pend:
            pend = []
        still = []
        for p, out, s, i in running:
            if p.is_alive():
                if time.time() > hard:
                    p.kill()
                    p.join()
                    results.append(dict(sub=s.name, shard=i, evaluations=0, nontrivial=[], samples=[], tags={},
                                        skipped=0, failure=None, harness="shard exceeded its time limit",
                                        known={}, wall=0.0))
                else:
                    still.append((p, out, s, i))
                continue
            p.join()
            if os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
            else:
                r = dict(sub=s.name, shard=i, evaluations=0, nontrivial=[], samples=[], tags={}, skipped=0,
                         failure=None, harness="shard died with exit code %s" % p.exitcode, known={}, wall=0.0)
            results.append(r)
            if r["failure"] is not None and not failed:
                failed = time.time()
        running = still
        if failed and running and time.time() - failed > 45.0:
            # a violation is established; do not wait for the rest (they may be slow on broken code)
            for p, out, s, i in running:
                p.kill()
                p.join()
            running = []
        if running:
            time.sleep(0.02)
    return subs, results, time.time() - t0


def write_evidence(prop, tier, seed, subs, results, wall, level="exploration"):
    per = {}
    for s in subs:
        rs = [r for r in results if r["sub"] == s.name]
        tags = {}
        for r in rs:
            for t, c in r["tags"].items():
                tags[t] = tags.get(t, 0) + c
        nt = set()
        for r in rs:
            nt.update(r["nontrivial"])
        per[s.name] = dict(
            evaluations=sum(r["evaluations"] for r in rs), distinct_nontrivial=len(nt),
            rule=s.rule, classes=dict(sorted(tags.items(), key=lambda kv: -kv[1])[:40]),
            shards=len(rs), cpu_s=round(sum(r["wall"] for r in rs), 1),
        )
    samples = []
    for s in subs:
        for r in results:
            if r["sub"] == s.name and r["samples"]:
                c = r["samples"][-1]
                txt = json.dumps(c)
                samples.append(dict(sub=s.name, case=c if len(txt) < 3000 else txt[:3000] + "..."))
                break
    viol = sum(1 for r in results if r["failure"] is not None)
    ev = dict(
        property=prop, tier=tier, seed=seed, level=level,
        coverage=dict(
            evaluations=sum(v["evaluations"] for v in per.values()),
            distinct_nontrivial=sum(v["distinct_nontrivial"] for v in per.values()),
            rule="cases drawn by Hypothesis per sub-check; distinct by content; non-trivial as stated per sub-check",
            samples=samples, sub_checks=per,
        ),
        wall_s=round(wall, 2), violations=viol,
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", "%s.json" % prop)
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=_default)
    os.replace(path + ".tmp", path)
    return ev


def main(argv=None):
    import argparse
    import importlib
    import shutil
    import tempfile

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", nargs="*")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args(argv)
    prop = a.property
    try:
        import warnings

        warnings.filterwarnings("ignore")
        importlib.import_module("ocv.checks.%s" % prop.lower())
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        # the library under test cannot be imported at all
        print("HARNESS-ERROR property=%s import failed" % prop)
        return 2
    if a.list:
        for s in SUBS.get(prop, []):
            print(s.name, s.quick, s.thorough, s.shards, s.rule)
        return 0
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        s = [x for x in SUBS[prop] if x.name == rep["sub"]][0]
        ctx = Ctx(prop, load_findings())
        d = tempfile.mkdtemp(prefix="ocv_")
        os.chdir(d)
        try:
            run_case(s, rep["case"], ctx)
        except Violation as v:
            print(str(v))
            print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(a.replay)))
            return 1
        finally:
            os.chdir("/")
            shutil.rmtree(d, ignore_errors=True)
        print("replay passes")
        return 0
    scratch = tempfile.mkdtemp(prefix="ocv_%s_" % prop)
    try:
        subs, results, wall = run_property(prop, a.tier, a.seed, scratch, a.jobs, a.only, a.scale, a.budget)
    finally:
        if os.environ.get("OCV_KEEP"):
            print("scratch kept:", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    ev = write_evidence(prop, a.tier, a.seed, subs, results, wall)
    rc = 0
    known = {}
    for r in results:
        known.update(r["known"])
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    fails = [r for r in results if r["failure"] is not None]
    if fails:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        done = set()
        for r in fails:
            if r["sub"] in done:
                continue
            done.add(r["sub"])
            body = dict(property=prop, sub=r["sub"], case=r["failure"]["case"], message=r["failure"]["message"])
            txt = json.dumps(body, indent=1)
            path = os.path.join(VERIF, "replays", "%s-%s-%s.json" % (prop, r["sub"], hashlib.sha1(txt.encode()).hexdigest()[:8]))
            with open(path, "w") as f:
                f.write(txt)
            print("--- %s/%s: %s" % (prop, r["sub"], r["failure"]["message"][:3000]))
            print("    case: %s" % json.dumps(r["failure"]["case"])[:2000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    else:
        bad = [r for r in results if r["harness"]]
        for r in bad:
            print("HARNESS-ERROR property=%s sub=%s shard=%s\n%s" % (prop, r["sub"], r["shard"], r["harness"]))
        if bad:
            rc = 2
        else:
            empty = [s.name for s in subs if not any(r["sub"] == s.name and r["nontrivial"] for r in results)]
            if empty:
                print("HARNESS-ERROR property=%s sub-checks without a non-trivial case: %s" % (prop, empty))
                rc = 2
    c = ev["coverage"]
    print("%s %s tier=%s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (
        prop, {0: "PASS", 1: "FAIL", 2: "ERROR"}[rc], a.tier, a.seed, c["evaluations"], c["distinct_nontrivial"], wall))
    if os.environ.get("OCV_VERBOSE"):
        for n, v in c["sub_checks"].items():
            print("   %-28s %6d cases %6d nontrivial %7.1f cpu s  %s" % (n, v["evaluations"], v["distinct_nontrivial"], v["cpu_s"], v["classes"]))
    return rc
