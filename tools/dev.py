#!/usr/bin/env python3
"""development helper: generate / drive / validate a family and summarise deviations
usage: dev.py GENMODULE NRAND SEED [regex] [Extra=val ...]"""
import sys, os, re, json, subprocess, collections, tempfile, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import pipeline
mod, nrand, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
rx = re.compile(sys.argv[4]) if len(sys.argv) > 4 else None
consts = {"NRand": nrand}
KW = json.loads(os.environ.get("DEVKW", "{}"))
for a in sys.argv[5:]:
    k, v = a.split("=")
    consts[k] = int(v) if v.lstrip("-").isdigit() else v if v.lstrip("-").isdigit() else v if v.lstrip("-").isdigit() else v
work = tempfile.mkdtemp(prefix="mvdev.", dir="/dev/shm")
try:
    r = pipeline.run_family(mod, consts, seed, work, "ALL", **KW)
except pipeline.TlcError as e:
    sys.exit(str(e)[-1200:])
print("events", r.events, "scenarios", r.scenarios, "fails", len(r.fails), "wall", r.wall)
ev = {}
for t in r.traces:
    for line in open(t):
        e = json.loads(line); ev[(e["sc"], e["i"])] = e
g = collections.defaultdict(list)
for sc, i, fam, cl in r.fails:
    e = ev[(sc, int(i))]
    key = (re.sub(r"/[^/]*$", "", sc).split("/", 1)[1] if "/" in sc else sc, cl, e["res"].get("err", ""), re.sub(r"[0-9]+", "N", e["res"].get("msg", ""))[:90] or str(e["res"].get("mut", ""))[:60])
    g[key].append(sc)
for k, v in sorted(g.items()):
    if rx is None or rx.search(" ".join(k)):
        print(len(v), *k, "|", v[0].rsplit("/", 1)[-1], v[-1].rsplit("/",1)[-1])
if os.environ.get("V"):
    for sc, i, fam, cl in r.fails:
        if rx is None or rx.search(cl):
            print(sc, i, cl, ev[(sc, int(i))].get("fid"))
print("work", work)
