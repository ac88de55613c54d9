"""Line coverage of /repo/openconcept by the checks: tools/cover.py PROP... [-- options of ocv.core]
Writes one file per worker into /tmp/ocvcov; tools/cover.py --report lists the lines no check executed."""
import ast, glob, json, os, subprocess, sys
OUT = "/tmp/ocvcov"
REPO = os.environ.get("OCV_REPO", "/repo")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(prop, rest):
    seen = set()
    mon = sys.monitoring
    pre = os.path.realpath(REPO) + "/openconcept/"

    def line(code, n):
        f = code.co_filename
        if f.startswith(pre) and "/tests/" not in f:
            seen.add((f[len(pre):], n))
        return mon.DISABLE
    mon.use_tool_id(mon.COVERAGE_ID, "ocv")
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    sys.path.insert(0, here)
    from ocv import core
    real = core.run_shard

    def shard(s, i, *a, **k):
        r = real(s, i, *a, **k)
        with open("%s/%s-%s-%d.json" % (OUT, prop, s.name, i), "w") as f:
            json.dump(sorted(seen), f)
        return r
    core.run_shard = shard
    sys.argv = ["ocv", prop] + rest
    return core.main()


def report():
    hit = {}
    for f in glob.glob(OUT + "/*.json"):
        for fn, n in json.load(open(f)):
            hit.setdefault(fn, set()).add(n)
    tot = mis = 0
    for root, _, files in os.walk(REPO + "/openconcept"):
        if "/tests" in root:
            continue
        for fn in sorted(files):
            if not fn.endswith(".py"):
                continue
            full = os.path.join(root, fn)
            rel = os.path.relpath(full, REPO + "/openconcept")
            tree = ast.parse(open(full).read())
            lines = set()
            for node in ast.walk(tree):
                if isinstance(node, ast.stmt) and not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)) and not isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                    lines.add(node.lineno)
            h = hit.get(rel, set())
            miss = sorted(lines - h)
            tot += len(lines)
            mis += len(miss)
            if miss:
                runs, a, order = [], None, sorted(lines)
                for n in order:
                    if n in h:
                        a = None
                    elif a is None:
                        a = [n, n]
                        runs.append(a)
                    else:
                        a[1] = n
                print("%-52s %4d/%4d  %s" % (rel, len(lines) - len(miss), len(lines), " ".join("%d" % x if x == y else "%d-%d" % (x, y) for x, y in runs)))
    print("statements %d, not executed %d" % (tot, mis))


if __name__ == "__main__":
    if sys.argv[1] == "--report":
        report()
    elif sys.argv[1] == "--one":
        sys.exit(one(sys.argv[2], sys.argv[3:]))
    else:
        os.makedirs(OUT, exist_ok=True)
        k = sys.argv.index("--") if "--" in sys.argv else len(sys.argv)
        for p in sys.argv[1:k]:
            r = subprocess.run([sys.executable, "-W", "ignore", __file__, "--one", p] + sys.argv[k + 1:], cwd=here, capture_output=True, text=True)
            print(p, r.returncode, r.stdout.strip().splitlines()[-1:] or r.stderr[-300:], flush=True)
