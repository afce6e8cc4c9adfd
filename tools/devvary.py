#!/usr/bin/env python3
"""development helper: which rewritings are not read as the original"""
import collections, json, os, re, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import pipeline
work = tempfile.mkdtemp(prefix="mvdev.", dir="/dev/shm")
try:
    r = pipeline.run_family("GenVary", {"NRand": int(sys.argv[1])}, int(sys.argv[2]), work, "ALL")
except pipeline.TlcError as e:
    sys.exit(str(e)[-1200:])
rx = re.compile(sys.argv[3]) if len(sys.argv) > 3 else None
print("events", r.events, "scenarios", r.scenarios, "fails", len(r.fails), "wall", r.wall)
ev, did = {}, collections.Counter()
for t in r.traces:
    for line in open(t):
        e = json.loads(line); ev[(e["sc"], e["i"])] = e
        if e["op"] == "vary":
            for n in e["res"].get("done", ["ERR"]): did[e["kind"] + "." + n] += 1
            for n in e["names"]: did[e["kind"] + "." + n] += 0
print("never:", *[k for k, v in did.items() if v == 0])
g = collections.defaultdict(list)
for sc, i, fam, cl in r.fails:
    i = int(i)
    e = ev[(sc, i)]
    p = ev[(sc, i - 1)] if e["op"] == "read" and i else e
    k = (sc.split("/")[1], "+".join(p["res"].get("done", [p["op"]])), e["res"].get("err", ""), e["res"].get("msg", "")[:80])
    g[k].append((cl, sc.rsplit("/", 1)[-1], i))
for k, v in sorted(g.items()):
    if rx is None or rx.search(" ".join(k)):
        print(len(v), *k, "|", sorted({x[0] for x in v})[:4], v[0][1:])
print("work", work)
