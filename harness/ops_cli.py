"""Driver operations for the command line tools."""
import os
import pathlib
import re
import shutil

import numpy as np

STAMPED = {"ply", "obj", "exodus", "h5m", "flac3d"}  # files that contain the time of writing


def encoding(p, fmt):
    """how the file at p stores its numbers"""
    with open(p, "rb") as f:
        raw = f.read()
    if fmt == "vtu":
        s = raw.decode("latin-1")
        if 'format="ascii"' in s:
            return "ascii"
        m = re.search(r'compressor="vtk(\w+?)DataCompressor"', s)
        return {"ZLib": "zlib", "LZMA": "lzma"}.get(m.group(1), m.group(1)) if m else "raw"
    if fmt == "xdmf":
        fs = set(re.findall(r'Format="(\w+)"', raw.decode("latin-1")))
        if fs == {"HDF"}:
            return "HDF" + _h5(os.path.splitext(p)[0] + ".h5")
        return "+".join(sorted(fs))
    if fmt in ("cgns", "h5m"):
        return _h5(p) or "raw"
    return "text" if all(b in b"\t\n\r" or 32 <= b < 127 for b in raw) else "bin"


def _h5(p):
    import h5py

    got = []
    with h5py.File(p, "r") as f:
        f.visititems(lambda n, o: got.append(o.compression) if isinstance(o, h5py.Dataset) and o.size > 1 else None)
    return "z" if any(got) else ""


class CliOps:
    def op_cli(self, o):
        meshio, Out = self.meshio, self.Out
        from meshio._cli import main

        p = self.path(o["f"])
        argv = [o["cmd"]] + ([p] if o["cmd"] != "convert" else [])
        if o.get("i"):
            argv += [["-i", "--input-format"][o["long"]], o["i"]]
        if o["cmd"] == "convert":
            q = self.path(o["g"])
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if o["o"]:
                argv += [["-o", "--output-format"][o["long"]], o["o"]]
            if o["a"]:
                argv.append(["-a", "--ascii"][o["long"]])
            if o["ff"]:
                argv += [["-f", "--float-format"][o["long"]], o["ff"]]
            if o["sd"]:
                argv.append(["-s", "--sets-to-int-data"][o["long"]])
            if o["ds"]:
                argv.append(["-d", "--int-data-to-sets"][o["long"]])
            argv += [p, q]
        elif o.get("max"):
            argv.append("--max")
        before = dict(self.listing())
        r = Out(lambda: main(argv))
        after = dict(self.listing())
        failed = r.st == "ok" and isinstance(r.val, int) and r.val != 0
        res = {"st": "err" if failed else r.st, "err": r.err, "msg": r.msg,
               "touched": sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k)),
               "enc": "", "twin": "n/a", "says": bool(self.ANNOUNCE.search(r.out))}
        if o["cmd"] == "info":
            res.update(self._info(r))
        elif res["st"] == "ok":
            t = self.path(o["g"])
            e = Out(lambda: encoding(t, o["ofmt"]))
            res["enc"] = e.val if e.st == "ok" else "?"
            if o["cmd"] == "convert":
                res["twin"] = self._twin(o, p)
        return res

    def _twin(self, o, p):
        """what the library gives for the same request"""
        meshio = self.meshio
        d = self.path("twin.tmp")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)

        def go():
            mesh = meshio.read(p, o["i"] or None)
            if o["sd"]:
                mesh.point_sets_to_data()
                mesh.cell_sets_to_data()
            if o["ds"]:
                for k, v in list(mesh.point_data.items()):
                    if v.dtype.kind in "iu" and v.ndim == 1:
                        mesh.point_data_to_sets(k)
                for k, v in list(mesh.cell_data.items()):
                    if all(x.dtype.kind in "iu" and x.ndim == 1 for x in v):
                        mesh.cell_data_to_sets(k)
            kw = {}
            if o["a"]:
                kw["binary"] = False
            if o["ff"]:
                kw["float_fmt"] = o["ff"]
            meshio.write(os.path.join(d, os.path.basename(o["g"])), mesh, o["o"] or None, **kw)

        r = self.Out(go)
        try:
            if r.st != "ok" or o["ofmt"] in STAMPED:
                return "n/a"
            q = os.path.dirname(self.path(o["g"]))
            for x in os.listdir(d):
                a, b = os.path.join(d, x), os.path.join(q, x)
                if not os.path.exists(b):
                    return "differs"
                with open(a, "rb") as f, open(b, "rb") as g:
                    if f.read() != g.read():
                        return "differs"
            return "same"
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def _info(self, r):
        out = r.out
        res = {"np": -1, "cells": [], "pd": "", "cd": "", "ps": "", "cs": "", "bad": False, "unused": False}
        m = re.search(r"Number of points: (\d+)", out)
        if m:
            res["np"] = int(m.group(1))
        m = re.search(r"Number of cells:\n((?:    .*: \d+\n)*)", out + "\n")
        if m:
            for line in m.group(1).splitlines():
                t, n = line.strip().rsplit(": ", 1)
                res["cells"].append({"t": t, "n": int(n)})
        for k, name in (("pd", "Point data"), ("cd", "Cell data"), ("ps", "Point sets"), ("cs", "Cell sets")):
            m = re.search(r"^  " + name + r": (.*)$", out, re.M)
            res[k] = m.group(1) if m else ""
        flat = " ".join(out.split())
        res["bad"] = "nonexistent points" in flat or "Inconsistent" in flat
        res["unused"] = "not part of any cell" in flat
        return res
