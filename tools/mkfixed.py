#!/usr/bin/env python3
"""Appends to known-findings.jsonl a "fixed" entry for every fix: commit of /repo that has none.
The property each one counts against is listed here (default C01)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "3b18b09"
PROP = {
 "C01": "518b390 95d5ae8",
 "C02": "2db4b83 73be5e0 6bb6a15 a86a388 732f29e cb1596b 819eba8 54ce969 7a06033 799eeed 6d5a82a 0cdfb41 8ff4c79 bdc32c2 f7e9557 fc85132",
 "C03": "2a640e6 a3b184d 6d7fca7 431c4d2 305f68d b0a3dd8 621eebe e25b63d 1851279 917b1e0 b807766 d0aca75 6c544a2 9433870 f7facff f4babfb bf8ffb3 fc056a5",
 "C04": "92ded0e fb8a91b 437d29c 90a3ccf",
 "C05": "947b929 e4ab93c 514ef56 6181ea3",
 "C06": "18d86cb e12263c 9d475de 7e14596",
 "C08": "c224339",
 "C07": "9ad437a 1a55bd2",
 "C11": "89a89ff 7399278 f03d9d4 3efe169",
 "C09": "a143878 b2e7b8b e6d46c2",
 "C10": "8ec549f 410a646 b66a573 394e073 ffa7333 b1eaee4",
 "C12": "8533a24 588aa40 c727769 aa4551f cde846a 9976ff4 859a6e7 dd19590 13b2e53",
 "C13": "dbea9fd 1655ec3 95548e6 94d7ed9 d701015",
 "C14": "7d34a08 9da6483 cad6bc9 f61b5b1 23a4fb4 f359410 1dae60c e1c94c3 fa6ae9a 00abe95 c29cd30 9da38f1 1cb38b9 f29a8ff dc1ebc1 48bf796 3f0cad6 f4d6814 87265ed a31562c a6f8a63 e2013b8 c4afb9e c672cc8 3ab0026 0b8079d 54b0434 168c4fe 6d9d065 c6763ad 0c47939 96d99f1 64f2e18 60c28fa 0cfdd75 2f9623c bbded9e 03ad227 615c7ef 9d3aa08",
 "C15": "a5a2791 a098d49",
 "C16": "527f4c5 c7b0d8f 80ee1ee e4023d6 779d4e9 367a258 c4f972d",
}
WHAT = {"90a3ccf": "writing vtk and vtu removed the point and cell sets from the caller's mesh (the commit's message is only 'fix: x')"}
by = {h: p for p, hs in PROP.items() for h in hs.split()}
path = os.path.join(ROOT, "known-findings.jsonl")
have = {json.loads(l).get("commit", "") for l in open(path) if l.strip()}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", BASE + ".."], capture_output=True, text=True).stdout
with open(path, "a") as f:
    for line in log.splitlines():
        h, s = line.split(" ", 1)
        if h in have or not s.startswith("fix:"):
            continue
        p = by.get(h, "C01")
        w = WHAT.get(h, s[4:].strip())
        f.write(json.dumps({"property": p, "status": "fixed", "commit": h, "line": f"fixed: property={p} {h} {w}"}) + "\n")
