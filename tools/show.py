#!/usr/bin/env python3
"""show.py WORK REGEX: prints the recorded events of matching scenarios, compactly"""
import sys, json, glob, re
for t in sorted(glob.glob(sys.argv[1] + "/*.trace.ndjson")):
    for line in open(t):
        e = json.loads(line)
        if not re.fullmatch(sys.argv[2], e["sc"]):
            continue
        r = e["res"]; m = r.get("m") or r.get("after") or {}
        print(e["sc"], e["i"], e["op"], e.get("s", ""), e.get("f", ""), e.get("fid", ""), r["st"], r.get("err", ""), r.get("msg", "")[:150],
              "says" if r.get("says") else "", r.get("mut") or "")
        if m:
            print("   dim", m["dim"], m["pdt"], m["pdig"], "np", len(m["pts"]), [(b["t"], len(b["c"])) for b in m["blocks"]],
                  "pd", [(d["n"], d["nc"], d["dt"], d["dig"]) for d in m["pd"]], "cd", [(d["n"], d["nc"], d["dt"], d["r"] if len(sys.argv) > 3 else "") for d in m["cd"]],
                  "fd", m["fd"], "ps", [d["n"] for d in m["ps"]], "cs", [d["n"] for d in m["cs"]])
