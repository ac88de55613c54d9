"""Developer tool for the planted bugs under /verif/seeded (no check reads it).

plant.py add SPEC.py [ID ...]    make the bugs of a spec: patch.diff, demo.sh, demo.py, meta.json; run the demo both ways
plant.py demo [ID ...]           run the demos on the clean tree and on a patched copy
plant.py tests [ID ...]          run the stable tests once with all the given patches applied together (bisect on failure)
plant.py check [ID ...]          run the quick check of each bug's property against a patched copy
"""
import json, os, shutil, subprocess, sys, tempfile, textwrap
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

V = Path(__file__).resolve().parent.parent
SEED = V / "seeded"
PY = "/opt/venv/bin/python"
WORK = Path("/tmp/pw")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def copy(name):
    d = WORK / name
    if d.exists():
        shutil.rmtree(d)
    d.mkdir(parents=True)
    sh(f"cd /repo && git archive HEAD | tar -x -C {d}")
    sh(f"cd /repo/openconcept && find . -name '*_trained.zip' | cpio -pdm {d}/openconcept || (cd /repo/openconcept; for z in $(find . -name '*_trained.zip'); do cp -p $z {d}/openconcept/$z; done)")
    sh("git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm base", cwd=d)
    return d


def drop(name):
    shutil.rmtree(WORK / name, ignore_errors=True)


def demo(i, tree, timeout=300):
    env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", OPENMDAO_REPORTS="0", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
    env["PYTHONPATH"] = "" if str(tree) == "/repo" else str(tree)
    with tempfile.TemporaryDirectory() as t:
        for f in (SEED / i).iterdir():
            if f.suffix not in (".diff", ".patch") and f.name != "meta.json":
                shutil.copy(f, t)
        try:
            r = subprocess.run(["bash", f"{t}/demo.sh"], cwd=tree, env=env, capture_output=True, text=True, timeout=timeout)
            return r.returncode, (r.stdout[-600:] + r.stderr[-1500:])
        except subprocess.TimeoutExpired:
            return 99, "timeout"


def patched(i):
    d = copy(i)
    r = sh(["git", "apply", str(SEED / i / "patch.diff")], cwd=d)
    assert r.returncode == 0, (i, r.stderr)
    return d


def add(b):
    i = b["id"]
    d = copy(i)
    try:
        for f, old, new in b["edits"]:
            p = d / "openconcept" / f
            s = p.read_text()
            n = s.count(old)
            if n != b.get("count", 1):
                return f"{i}: BAD: {n} occurrences of {old!r} in {f}"
            p.write_text(s.replace(old, new))
        out = SEED / i
        out.mkdir(parents=True, exist_ok=True)
        (out / "patch.diff").write_text(sh("git diff", cwd=d).stdout)
        (out / "demo.sh").write_text(f'#!/bin/bash\nexec {PY} -W ignore "$(dirname "$0")/demo.py"\n')
        (out / "demo.py").write_text(textwrap.dedent(b["demo"]).lstrip("\n"))
        (out / "meta.json").write_text(json.dumps({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
        return rundemo(i, d)
    finally:
        drop(i)


def rundemo(i, d=None):
    mk = d is None
    d = patched(i) if mk else d
    try:
        a, oa = demo(i, Path("/repo"))
        c, oc = demo(i, d)
        if a == 0 and c != 0 and c != 99:
            return f"{i}: demo ok   ({oc.strip().splitlines()[-1][:150] if oc.strip() else ''})"
        return f"{i}: BAD: demo clean={a} patched={c}\n--clean\n{oa}\n--patched\n{oc}"
    finally:
        if mk:
            drop(i)


def runtests(ids, name):
    d = copy(name)
    try:
        for i in ids:
            r = sh(["git", "apply", str(SEED / i / "patch.diff")], cwd=d)
            if r.returncode:
                return [f"{i} does not apply together"]
        cmd = (f". /opt/vp/env.sh; export PYTHONPATH={d}; timeout 900 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --disable-warnings --tb=no "
               f"-n 8 --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml={d}/j.xml > {d}/log 2>&1; "
               f"/usr/bin/python3 /opt/vp/results.py {d}/out.json junit:{d}/j.xml")
        sh(["bash", "-c", cmd], cwd=d)
        out = json.loads((d / "out.json").read_text())
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base["stable"] if isinstance(base, dict) else base
        got = set(out["passed"] if "passed" in out else [])
        return [t for t in stable if t not in got]
    finally:
        drop(name)


def tests(ids, depth=0):
    groups, used = [], []
    for i in ids:  # patches to the same file may not combine: group greedily
        fs = {l for l in (SEED / i / "patch.diff").read_text().splitlines() if l.startswith("+++")}
        for g, u in zip(groups, used):
            if len(g) < 10 and not (fs & u):
                g.append(i); u |= fs
                break
        else:
            groups.append([i]); used.append(set(fs))
    for g in groups:
        miss = runtests(g, "tests")
        if not miss:
            for i in g:
                print(f"{i}: tests ok", flush=True)
        elif len(g) == 1:
            print(f"{g[0]}: BAD: tests fail: {miss[:4]}", flush=True)
        else:
            print("failing together:", g, miss[:6], flush=True)
            h = len(g) // 2
            tests(g[:h]); tests(g[h:])


def check(i):
    prop = json.loads((SEED / i / "meta.json").read_text())["property"]
    d = patched(i)
    try:
        r = subprocess.run(["bash", "check.sh", prop, "quick"] + EXTRA, cwd=V, env=dict(os.environ, OCV_REPO=str(d), OCV_EVIDENCE=f"/tmp/pw/ev-{i}"), capture_output=True, text=True, timeout=1800)
        v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "ERROR"))]
        (WORK / f"log-{i}").write_text(r.stdout + r.stderr[-4000:])
        return f"{i}: {prop} exit {r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'} {v[:1]}"
    finally:
        drop(i)


if __name__ == "__main__":
    mode, args = sys.argv[1], sys.argv[2:]
    EXTRA = []
    if "--" in args:
        k = args.index("--")
        args, EXTRA = args[:k], args[k + 1:]
    if mode == "add":
        ns = {}
        exec(open(args[0]).read(), ns)
        bugs = [b for b in ns["BUGS"] if not args[1:] or b["id"] in args[1:]]
        with ThreadPoolExecutor(6) as ex:
            for r in ex.map(add, bugs):
                print(r, flush=True)
    else:
        ids = args or sorted(p.name for p in SEED.iterdir())
        ids = [i for a in ids for i in ([a] if (SEED / a).exists() else sorted(p.name for p in SEED.iterdir() if p.name.startswith(a)))]
        if mode == "demo":
            with ThreadPoolExecutor(6) as ex:
                for r in ex.map(rundemo, ids):
                    print(r, flush=True)
        elif mode == "tests":
            tests(ids)
        elif mode == "check":
            for i in ids:
                print(check(i), flush=True)
