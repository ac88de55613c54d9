"""Developer tool (no check uses it): mutation campaign against the checks.

mutate.py PROP FILE[,FILE...] [--n N] [--seed S] [--partials|--all] [--par K] [--scale X] [--match REGEX]

Draws N single-site mutants of the files' code, runs PROP's quick check on a patched copy of /repo for each and
appends one line per mutant to /tmp/mut/PROP.jsonl.  Survivors are printed: each is either equivalent code, or
something the check does not see.
"""
import argparse, ast, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

V = Path(__file__).resolve().parent.parent
REPO = Path("/repo/openconcept")
WORK = Path("/tmp/mut")
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
CMP = {ast.Lt: ("<", ["<=", ">"]), ast.LtE: ("<=", ["<", ">="]), ast.Gt: (">", [">=", "<"]), ast.GtE: (">=", [">", "<="]), ast.Eq: ("==", ["!="]), ast.NotEq: ("!=", ["=="])}


def sites(src, partials):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda ln, co: off[ln - 1] + co  # noqa: E731
    seg = lambda n: b[pos(n.lineno, n.col_offset):pos(n.end_lineno, n.end_col_offset)].decode()  # noqa: E731
    out = []

    def put(kind, a, z, new, fn):
        old = b[a:z].decode()
        if old != new:
            out.append((kind, a, z, old, new, fn))

    def walk(node, fn, docs):
        if isinstance(node, (ast.FunctionDef,)):
            fn = (fn + "." if fn else "") + node.name
            if node.name in ("initialize",):
                return
        if isinstance(node, ast.ClassDef):
            fn = node.name
        if isinstance(node, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom, ast.JoinedStr)):
            return
        if isinstance(node, ast.If) and isinstance(node.test, ast.Compare) and "__name__" in ast.dump(node.test):
            return
        if isinstance(node, ast.If) and isinstance(node.test, ast.Name) and node.test.id == "plot":
            return
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return
        if isinstance(node, ast.Call):
            f = seg(node.func)
            if f in ("print", "warnings.warn", "super", "self.declare_partials", "self.declare_coloring") or f.endswith("options.declare") or f.startswith("plt."):
                return
            for k in node.keywords:
                if k.arg in ("desc", "msginfo", "lower", "upper", "ref", "val", "iprint", "dtype"):
                    continue
                if k.arg:
                    a, z = pos(k.lineno, k.col_offset), pos(k.end_lineno, k.end_col_offset)
                    z2 = z
                    m = re.match(rb"\s*,\s*", b[z:])
                    if m:
                        z2 = z + m.end()
                    put("dropkw", a, z2, "", fn)
            for k in node.keywords:
                if k.arg not in ("desc", "lower", "upper", "ref", "iprint", "dtype"):
                    walk(k.value, fn, docs)
            for c in node.args:
                walk(c, fn, docs)
            walk(node.func, fn, docs)
            return
        if isinstance(node, ast.BinOp) and type(node.op) in BIN:
            a = pos(node.left.end_lineno, node.left.end_col_offset)
            z = pos(node.right.lineno, node.right.col_offset)
            s = b[a:z].decode()
            o = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}[type(node.op)]
            if s.count(o) == 1 and not isinstance(node.left, (ast.JoinedStr,)) and not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)) and not (isinstance(node.right, ast.Constant) and isinstance(node.right.value, str)):
                put("binop", a, z, s.replace(o, BIN[type(node.op)]), fn)
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in CMP:
            a = pos(node.left.end_lineno, node.left.end_col_offset)
            z = pos(node.comparators[0].lineno, node.comparators[0].col_offset)
            s = b[a:z].decode()
            o, alts = CMP[type(node.ops[0])]
            for alt in alts:
                put("cmp", a, z, s.replace(o, alt, 1), fn)
        if isinstance(node, ast.Constant):
            a, z = pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)
            v = node.value
            if isinstance(v, bool):
                put("bool", a, z, str(not v), fn)
            elif isinstance(v, int):
                put("int", a, z, str(v + 1), fn)
                if v:
                    put("int", a, z, str(v - 1), fn)
            elif isinstance(v, float):
                put("float", a, z, repr(v * 1.02) if v else "0.01", fn)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            a, z = pos(node.lineno, node.col_offset), pos(node.operand.lineno, node.operand.col_offset)
            put("neg", a, z, "", fn)
        if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Constant) and isinstance(node.slice.value, str) and isinstance(node.value, (ast.Name, ast.Attribute)) and isinstance(node.ctx, ast.Load):
            base = seg(node.value)
            others = sorted({m for m in re.findall(re.escape(base) + r"\[\"([^\"]+)\"\]", cls_src.get(fn.split(".")[0], src)) if m != node.slice.value})
            if others and base in ("inputs", "self.options", "outputs"):
                a, z = pos(node.slice.lineno, node.slice.col_offset), pos(node.slice.end_lineno, node.slice.end_col_offset)
                put("swapname", a, z, '"%s"' % rng.choice(others), fn)
        if isinstance(node, ast.Assign) or (isinstance(node, ast.Expr) and isinstance(node.value, ast.Call)):
            if fn and not (isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name)):
                a, z = pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)
                put("delstmt", a, z, "pass", fn)
        for c in ast.iter_child_nodes(node):
            walk(c, fn, docs)

    cls_src = {n.name: ast.get_source_segment(src, n) for n in tree.body if isinstance(n, (ast.ClassDef, ast.FunctionDef))}
    for n in tree.body:
        if isinstance(n, (ast.ClassDef, ast.FunctionDef)):
            walk(n, "", None)
    res = []
    for s in out:
        part = any(w in s[5] for w in ("compute_partials", "linearize", "_partials", "apply_linear", "compute_jacvec"))
        if partials == "all" or part == (partials == "only"):
            res.append(s)
    return res


def run(job):
    k, f, s = job
    kind, a, z, old, new, fn = s
    d = WORK / ("m%s_%d" % (A.prop, k))
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo/openconcept", d / "openconcept", ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
    p = d / "openconcept" / f
    b = p.read_bytes()
    line = b[:a].count(b"\n") + 1
    p.write_bytes(b[:a] + new.encode() + b[z:])
    txt = p.read_text().splitlines()
    res = dict(prop=A.prop, file=f, line=line, fn=fn, kind=kind, old=old, new=new, text=b.decode().splitlines()[line - 1].strip()[:160])
    t0 = time.time()
    try:
        try:
            compile("\n".join(txt), f, "exec")
        except SyntaxError:
            res["status"] = "syntax"
            return res
        env = dict(os.environ, OCV_REPO=str(d), OCV_EVIDENCE=str(d / "ev"), OCV_REPLAYS=str(d / "rp"))
        for scale in ([A.scale, 1.0] if A.scale < 1 else [1.0]):
            r = subprocess.run(["bash", "check.sh", A.prop, "quick", "--scale", str(scale), "--jobs", str(max(1, 8 // A.par))], cwd=V, env=env, capture_output=True, text=True, timeout=1500)
            res["rc"] = r.returncode
            if r.returncode:
                break
        v = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "ERROR"))]
        res["status"] = "SURVIVED" if r.returncode == 0 else ("caught" if r.returncode == 1 and v else "ERROR")
        if res["status"] == "ERROR":
            res["out"] = (r.stdout[-500:] + r.stderr[-500:])
    except subprocess.TimeoutExpired:
        res["status"] = "TIMEOUT"
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res["s"] = round(time.time() - t0, 1)
    return res


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("files"); ap.add_argument("--n", type=int, default=20); ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--partials", default="no", choices=["no", "only", "all"]); ap.add_argument("--par", type=int, default=2)
    ap.add_argument("--scale", type=float, default=1.0); ap.add_argument("--match"); ap.add_argument("--kinds"); ap.add_argument("--notmatch")
    A = ap.parse_args()
    rng = random.Random(A.seed)
    jobs = []
    for pat in A.files.split(","):
        fs = sorted(REPO.glob(pat)) if "*" in pat else [REPO / pat]
        for p in fs:
            if "tests" in p.parts or p.name == "__init__.py":
                continue
            for s in sites(p.read_text(), A.partials):
                if A.match and not re.search(A.match, s[5]):
                    continue
                if A.notmatch and re.search(A.notmatch, s[5]):
                    continue
                if A.kinds and s[0] not in A.kinds.split(","):
                    continue
                jobs.append((str(p.relative_to(REPO)), s))
    rng.shuffle(jobs)
    total = len(jobs)
    jobs = [(k, f, s) for k, (f, s) in enumerate(jobs[:A.n])]
    print("%s: %d sites, %d drawn" % (A.prop, total, len(jobs)), flush=True)
    n = {}
    with ThreadPoolExecutor(A.par) as ex, open(WORK / (A.prop + ".jsonl"), "a") as fh:
        for r in ex.map(run, jobs):
            fh.write(json.dumps(r) + "\n"); fh.flush()
            n[r["status"]] = n.get(r["status"], 0) + 1
            if r["status"] not in ("caught", "syntax"):
                print("%s %s %s:%d %s [%s] %r -> %r | %s %s" % (r["status"], r["prop"], r["file"], r["line"], r["fn"], r["kind"], r["old"][:60], r["new"][:40], r["text"][:110], r.get("out", "")[-200:].replace("\n", " ")), flush=True)
    print(A.prop, n, flush=True)
