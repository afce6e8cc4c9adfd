#!/usr/bin/env python3
"""Development helper: many small changes to the code, one at a time; which ones pass the
repository's tests and are seen by no family of behaviours?

usage: mutate.py SEED COUNT FILE-REGEX [OUT]      (scenarios are cached in /dev/shm/mut)
"""
import ast, collections, concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import pipeline, plan
BASE = "/dev/shm/mut"
SRC = "/repo/src"
PY = "/opt/venv/bin/python"
seed, count, frx = int(sys.argv[1]), int(sys.argv[2]), re.compile(sys.argv[3])
out = sys.argv[4] if len(sys.argv) > 4 else "/tmp/mut/out.txt"
FIRST = ["GenRT", "GenEdge", "GenLay", "GenUnsup", "GenConform"]
SECOND = ["GenVar", "GenHist", "GenApi", "GenExt", "GenCli", "GenCut", "GenVary"]
OTHER = {"GenRegistry": ("TraceRegistry", "driver_reg.py"), "GenSeries": ("TraceSeries", "driver_series.py")}


def prepare():
    os.makedirs(BASE, exist_ok=True)
    jobs, seen = [], set()
    for js in plan.PLAN.values():
        for j in js:
            if j.gen in seen:
                continue
            seen.add(j.gen)
            if os.path.exists(f"{BASE}/{j.gen}.ndjson"):
                continue
            for k in range(8):
                c = {"Seed": 77, "Out": f"{BASE}/{j.gen}.{k}.part", "Shard": k, "NShards": 8, "Focus": "all"}
                c.update(j.consts["quick"], **({"Focus": "all"} if "Focus" in j.consts["quick"] else {}))
                jobs.append((j.gen, c, BASE, f"{j.gen}.{k}"))
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(pipeline._gen, jobs))
    for g in {j[0] for j in jobs}:
        with open(f"{BASE}/{g}.ndjson", "w") as f:
            for k in range(8):
                f.write(open(f"{BASE}/{g}.{k}.part").read())


FID = re.compile(r'"(?:fid|id|fmt|g|f)":"([^"]*)"')
GROUP = {"gmsh": "gmsh|gmsh22|gmsh4", "dolfin": "dolfin-xml|dolfin", "h5m": "h5m", "_vtk_common": "vtk|vtu|vtk42|vtk51"}


def wanted(fn):
    """regex on scenario text for the file under change; None: everything"""
    d = fn.split("/")[0]
    if d.endswith(".py") and d != "_vtk_common.py" or d.startswith("_c"):
        return None
    d = d.replace(".py", "")
    if d == "_vtk_common":
        d = "vt[ku]"
    return re.compile(r'"fid":"' + d + r'[^"]*"|"fmt":"' + d)


def load(fn, gens):
    rx = wanted(fn)
    txt = []
    for g in gens:
        ls = open(f"{BASE}/{g}.ndjson").read().split("\n")
        ls = [x for x in ls if x and (rx is None or rx.search(x))]
        if rx is None:
            cap = 2000 if g in ("GenApi", "GenCli", "GenExt") else 250
            ls = ls[:: max(1, len(ls) // cap)]
        txt += ls
    return txt


def run(scns, work, tag, src, module="TraceSystem", driver="driver.py"):
    scn, tr = f"{work}/{tag}.scn", f"{work}/{tag}.trace"
    open(scn, "w").write("\n".join(scns) + "\n")
    try:
        pipeline._drive((scn, tr, driver, {"MESHIO_SRC": src}))
    except Exception as e:
        return {("driver", str(e)[-200:])}
    if not os.path.exists(tr) or not os.path.getsize(tr):
        return set()
    fails = pipeline._check((module, {"Prop": "ALL", "TraceFile": tr}, work, tag))[0]
    return {(sc, i, c) for sc, i, _, c in fails}


_base = {}
def evaluate(fn, src, work, stop=True):
    fails = set()
    for stage, gens in (("A", FIRST), ("B", SECOND)):
        f = run(load(fn, gens), work, stage, src)
        if stop and f - _base.get((fn, stage), set()):
            return f - _base[(fn, stage)]
        fails |= f
        if not stop:
            _base[(fn, stage)] = f
    if fn in ("_helpers.py", "_files.py", "_common.py", "_mesh.py", "__init__.py") or fn.startswith("xdmf"):
        for g, (m, d) in OTHER.items():
            f = run([x for x in open(f"{BASE}/{g}.ndjson").read().split("\n") if x], work, g, src, m, d)
            if stop and f - _base.get((fn, g), set()):
                return f - _base[(fn, g)]
            if not stop:
                _base[(fn, g)] = f
    return set()


CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "+", ast.Mod: "+"}


def sites(text):
    tree = ast.parse(text)
    offs = [0]
    for l in text.split("\n"):
        offs.append(offs[-1] + len(l.encode()) + 1)
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    b = text.encode()
    seg = lambda n: b[slice(*pos(n))].decode()
    res = []
    add = lambda n, new, what: res.append((*pos(n), new, what, n.lineno))

    def stmts(body):
        for st in body:
            if isinstance(st, (ast.Assign, ast.AugAssign)) or isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
                if "import" not in seg(st) and "warn(" not in seg(st):
                    add(st, "pass", "drop")
            elif isinstance(st, ast.Raise):
                add(st, "pass", "noraise")
            elif isinstance(st, ast.Break):
                add(st, "pass", "nobreak")
            elif isinstance(st, ast.Continue):
                add(st, "pass", "nocontinue")
    infun = set()
    for fnode in ast.walk(tree):
        if isinstance(fnode, (ast.FunctionDef, ast.Lambda)):
            for n in ast.walk(fnode):
                infun.add(n)
    for n in ast.walk(tree):
        if n not in infun:
            if isinstance(n, ast.Dict) and len(n.keys) > 3:
                i = len(n.values) * 7 // 11
                for i in range(0, len(n.values) - 1, 3):
                    if all(isinstance(v, ast.Constant) for v in n.values[i:i + 2]):
                        a, c = n.values[i], n.values[i + 1]
                        if seg(a) != seg(c):
                            res.append((pos(a)[0], pos(c)[1], seg(c) + b[pos(a)[1]:pos(c)[0]].decode() + seg(a), "dictswap", a.lineno))
            continue
        for fld in ("body", "orelse", "finalbody"):
            if isinstance(getattr(n, fld, None), list):
                stmts(getattr(n, fld))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, f"({seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])})", "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or isinstance(n, ast.BinOp) and type(n.op) in BIN and isinstance(n.right, ast.Constant) and not isinstance(n.left, (ast.Constant, ast.JoinedStr)):
            if not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
                add(n, f"({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})", "binop")
        elif isinstance(n, ast.BoolOp):
            add(n, f"({seg(n.values[0])})" , "boolop-first")
            add(n, f"({seg(n.values[-1])})", "boolop-last")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, str(n.value + 1), "const+1")
            if n.value:
                add(n, str(n.value - 1), "const-1")
        elif isinstance(n, ast.If):
            add(n.test, f"not ({seg(n.test)})", "negate")
            add(n.test, "False", "never")
            add(n.test, "True", "always")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add(n, seg(n.value), "noslice")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "strip", "astype", "lower", "reshape", "T", "upper", "rstrip", "lstrip", "tolist", "flatten", "ravel"):
            add(n, seg(n.func.value), "nocall")
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and seg(n.func) not in ("isinstance", "getattr", "hasattr"):
            a, c = n.args
            res.append((pos(a)[0], pos(c)[1], seg(c) + ", " + seg(a), "argswap", n.lineno))
        elif isinstance(n, ast.IfExp):
            add(n, f"({seg(n.body)})", "ifexp-body")
            add(n, f"({seg(n.orelse)})", "ifexp-else")
    return res


def tests_pass(work, fn):
    d = fn.split("/")[0].replace(".py", "").replace("h5m", "moab")
    t = f"tests/test_{d}.py"
    first = [t] if os.path.exists(f"/repo/{t}") else []
    for sel in ([first] if first else []) + [["tests"]]:
        p = subprocess.run([PY, "-m", "pytest", "-q", "-x" if False else "-q", "-p", "no:cacheprovider", f"--basetemp={work}/pt", "--timeout=60", "--tb=no", "-o", "junit_family=xunit2", f"--junitxml={work}/j.xml", *sel],
                           cwd=work, env=dict(os.environ, PYTHONPATH=f"{work}/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1"), capture_output=True, text=True)
        if not os.path.exists(f"{work}/j.xml"):
            return False
        import xml.etree.ElementTree as ET
        got = set()
        for c in ET.parse(f"{work}/j.xml").getroot().iter("testcase"):
            if not any(x.tag in ("failure", "error", "skipped") for x in c):
                got.add(c.get("classname") + "::" + c.get("name"))
        need = {x for x in STABLE if x.startswith("tests.")}
        if sel == first:
            need = {x for x in need if x.startswith(t[:-3].replace("/", ".") + "::")}
        if need - got:
            return False
    return True


STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def one(k, fn, site, text):
    a, z, new, what, line = site
    work = f"{BASE}/w{k}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        shutil.copytree(SRC, work + "/src", ignore=shutil.ignore_patterns("__pycache__", "*.egg-info"))
        os.symlink("/repo/tests", work + "/tests")
        for c in ("pyproject.toml", "setup.cfg", "tox.ini"):
            if os.path.exists("/repo/" + c):
                shutil.copy("/repo/" + c, work)
        b = text.encode()
        mut = (b[:a] + new.encode() + b[z:]).decode()
        open(f"{work}/src/meshio/{fn}", "w").write(mut)
        try:
            compile(mut, fn, "exec")
        except SyntaxError:
            return "invalid", ""
        if not tests_pass(work, fn):
            return "tests", ""
        f = evaluate(fn, work + "/src", work)
        if f:
            return "caught", sorted({x[-1] for x in f})[:3]
        return "SURVIVED", ""
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    prepare()
    files = sorted(os.path.relpath(os.path.join(d, f), SRC + "/meshio") for d, _, fs in os.walk(SRC + "/meshio") for f in fs if f.endswith(".py"))
    files = [f for f in files if frx.search(f) and not f.endswith("__about__.py")]
    r = random.Random(seed)
    allsites = []
    for f in files:
        t = open(f"{SRC}/meshio/{f}").read()
        allsites += [(f, s, t) for s in sites(t)]
    r.shuffle(allsites)
    allsites = allsites[:count]
    print("files", len(files), "mutants", len(allsites), flush=True)
    need = sorted({f for f, _, _ in allsites})
    with cf.ThreadPoolExecutor(8) as ex:
        def base(f):
            w = f"{BASE}/b_{f.replace('/', '_')}"
            os.makedirs(w, exist_ok=True)
            evaluate(f, SRC, w, stop=False)
            shutil.rmtree(w)
        list(ex.map(base, need))
        print("baseline", {f: sum(len(v) for (g, _), v in _base.items() if g == f) for f in need}, flush=True)
        stats = collections.Counter()
        with open(out, "a") as o:
            futs = {ex.submit(one, k, f, s, t): (f, s, t) for k, (f, s, t) in enumerate(allsites)}
            for fu in cf.as_completed(futs):
                f, s, t = futs[fu]
                try:
                    res, info = fu.result()
                except Exception as e:
                    res, info = "error", repr(e)[-150:]
                stats[res] += 1
                if res in ("SURVIVED", "error"):
                    old = t.encode()[s[0]:s[1]].decode()
                    o.write(f"{res} {f}:{s[4]} {s[3]}: {old[:120]!r} -> {s[2][:120]!r} {info}\n")
                    o.flush()
    print(dict(stats))


main()
