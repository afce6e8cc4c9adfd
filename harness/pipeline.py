"""TLC generation -> real execution -> TLC trace validation."""
import concurrent.futures as cf
import json
import os
import re
import subprocess
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "..", "spec")
PY = os.environ.get("MESHIO_PYTHON", "/opt/venv/bin/python")
JAR = "/opt/veriftools/tla/tla2tools.jar"


def _classpath():
    d = os.path.dirname(JAR)
    cps = [JAR]
    for f in sorted(os.listdir(d)):
        if f.endswith(".jar") and f != os.path.basename(JAR):
            cps.append(os.path.join(d, f))
    return ":".join(cps)


class TlcError(Exception):
    pass


def tlc(module, cfg, out, workers="1", heap="2g", extra=(), timeout=3000):
    meta = out + ".meta"
    cmd = [
        "java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-cp", _classpath(), "tlc2.TLC",
        "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra,
        os.path.join(SPEC, module + ".tla"),
    ]
    with open(out, "w") as f:
        rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, cwd=SPEC).returncode
    subprocess.run(["rm", "-rf", meta])
    text = open(out).read()
    return rc, text


def _q(v):
    return f'"{v}"' if isinstance(v, str) else ("TRUE" if v is True else "FALSE" if v is False else str(v))


def write_cfg(path, consts, spec=None, post=None, invs=(), nodeadlock=True, extra=""):
    with open(path, "w") as f:
        if spec:
            f.write(f"SPECIFICATION {spec}\n")
        if consts:
            f.write("CONSTANTS\n")
            for k, v in consts.items():
                f.write(f"  {k} = {_q(v)}\n")
        for i in invs:
            f.write(f"INVARIANT {i}\n")
        if post:
            f.write(f"POSTCONDITION {post}\n")
        if nodeadlock:
            f.write("CHECK_DEADLOCK FALSE\n")
        f.write(extra)


class Result:
    def __init__(self):
        self.fails, self.traces, self.scn, self.events, self.scenarios = [], [], [], 0, 0
        self.states = self.transitions = 0
        self.wall = 0.0
        self.extra = {}
        self.timing = {}


# TLC breaks long tuples over several lines
FAIL = re.compile(r'<<\s*"FAIL",\s*"(.*?)",\s*(-?\d+),\s*"(.*?)",\s*"(.*?)"\s*>>')
STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def _gen(args):
    module, consts, work, tag = args
    cfg, out = f"{work}/{tag}.gen.cfg", f"{work}/{tag}.gen.out"
    write_cfg(cfg, consts, nodeadlock=False)
    rc, text = tlc(module, cfg, out, extra=("-deadlock",))
    m = re.search(r'<<"GENERATED", (\d+)>>', text)
    if rc != 0 or not m:
        raise TlcError(f"generation {module}: rc={rc}\n" + text[-3000:])
    return int(m.group(1))


def _drive(args):
    scn, trace, driver, env = args
    e = dict(os.environ)
    e.update(env or {})
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["OMP_NUM_THREADS"] = e["OPENBLAS_NUM_THREADS"] = "1"
    p = subprocess.run([PY, os.path.join(HERE, driver), scn, trace], capture_output=True, text=True, timeout=3000, env=e)
    if p.returncode != 0:
        raise RuntimeError(f"driver rc={p.returncode}: {p.stderr[-3000:]}")


def _check(args):
    module, consts, work, tag = args
    cfg, out = f"{work}/{tag}.tr.cfg", f"{work}/{tag}.tr.out"
    write_cfg(cfg, consts, spec="Spec", post="Accepted")
    rc, text = tlc(module, cfg, out)
    fails = FAIL.findall(text)
    m = STATS.search(text)
    if len(fails) != text.count('"FAIL"'):
        raise TlcError(f"trace check {module}: {text.count(chr(34) + 'FAIL' + chr(34))} failures printed, {len(fails)} understood")
    if rc != 0 or not m:
        raise TlcError(f"trace check {module}: rc={rc}\n" + text[-3000:])
    return fails, int(m.group(2)), int(m.group(1))


def split_file(src, n, work, tag):
    """round-robin split of an ndjson file by lines"""
    outs = [f"{work}/{tag}.{k}.scn.ndjson" for k in range(n)]
    fs = [open(o, "w") for o in outs]
    with open(src) as f:
        for i, line in enumerate(f):
            fs[i % n].write(line)
    for f in fs:
        f.close()
    return outs


def run_family(gen, consts, seed, work, prop, trace_module="TraceSystem", driver="driver.py", shards=8, env=None, tconsts=None):
    t0 = time.time()
    r = Result()
    tag = gen
    with cf.ThreadPoolExecutor(8) as ex:
        jobs = []
        for k in range(shards):
            c = {"Seed": seed, "Out": f"{work}/{tag}.{k}.gen.ndjson", "Shard": k, "NShards": shards, "Focus": "all"}
            c.update(consts)
            jobs.append((gen, c, work, f"{tag}.{k}"))
        r.scenarios = sum(ex.map(_gen, jobs))
        t1 = time.time()
        allscn = f"{work}/{tag}.all.ndjson"
        with open(allscn, "w") as f:
            for j in jobs:
                with open(j[1]["Out"]) as g:
                    for line in g:
                        f.write(line)
        r.scn = split_file(allscn, shards, work, tag)
        r.traces = [s.replace(".scn.", ".trace.") for s in r.scn]
        list(ex.map(_drive, [(s, t, driver, env) for s, t in zip(r.scn, r.traces)]))
        t2 = time.time()
        tc = {"Prop": prop}
        tc.update(tconsts or {})
        for fails, distinct, gens in ex.map(
            _check, [(trace_module, dict(tc, TraceFile=t), work, f"{tag}.{k}") for k, t in enumerate(r.traces)]
        ):
            r.fails += fails
            r.states += distinct
            r.transitions += gens
        for t in r.traces:
            with open(t) as f:
                r.events += sum(1 for _ in f)
    t3 = time.time()
    r.wall = round(t3 - t0, 1)
    r.timing = {"generate": round(t1 - t0, 1), "execute": round(t2 - t1, 1), "validate": round(t3 - t2, 1)}
    return r


def run_design(module, consts, work):
    t0 = time.time()
    cfg, out = f"{work}/{module}.cfg", f"{work}/{module}.out"
    write_cfg(cfg, consts, spec="Spec", invs=("Quiet", "Alarm", "Composed", "Held"))
    rc, text = tlc(module, cfg, out, workers="8", heap="8g")
    m = STATS.search(text)
    if rc != 0 or not m:
        raise TlcError(f"design model {module}: rc={rc}\n" + text[-3000:])
    r = Result()
    r.transitions, r.states = int(m.group(1)), int(m.group(2))
    r.wall = round(time.time() - t0, 1)
    r.timing = {"model checking": r.wall}
    return r
