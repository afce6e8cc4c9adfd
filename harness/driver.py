#!/opt/venv/bin/python
"""Executes scenarios (ndjson of {id, fam, ops}) against the real meshio and records
what happened, one JSON line per operation.  The driver never judges.

usage: driver.py SCENARIOS TRACE
"""
import contextlib
import copy
import io
import json
import os
import pathlib
import random
import re
import resource
import shutil
import signal
import sys
import tempfile
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("MESHIO_SRC", "/repo/src")
sys.path.insert(0, REPO_SRC)
sys.dont_write_bytecode = True

import numpy as np  # noqa: E402

import absmesh  # noqa: E402
import decode  # noqa: E402
import foreign  # noqa: E402
import vary  # noqa: E402
import meshio  # noqa: E402
import ops_api  # noqa: E402
import ops_cli  # noqa: E402

assert os.path.realpath(meshio.__file__).startswith(os.path.realpath(REPO_SRC)), meshio.__file__

TIMEOUT = 20
HANGS = 0  # calls that did not end; after the first few, less time is spent on each
MAX_HANGS = 12  # then the rest of this share is left out
resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)

ANNOUNCE = re.compile(
    r"skip|unsupported|not support|only support|cannot|can.t |can not|drop|ignor|omit|discard|only hold|only write|only stor", re.I
)


class Out:
    """run a callable, catching everything it does"""

    def __init__(self, fn):
        buf = io.StringIO()
        self.val, self.err, self.msg = None, "", ""
        global HANGS
        signal.alarm(TIMEOUT if HANGS < 3 else 4)
        try:
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                with warnings.catch_warnings():
                    warnings.simplefilter("always")
                    warnings.simplefilter("ignore", DeprecationWarning)
                    warnings.simplefilter("ignore", PendingDeprecationWarning)
                    try:
                        self.val = fn()
                    finally:
                        signal.alarm(0)
        except Hang:
            self.err = "HANG"
            HANGS += 1
        except SystemExit as e:
            self.err = "EXIT" if e.code not in (0, None) else ""
            self.msg = f"exit {e.code}"
        except MemoryError as e:
            self.err, self.msg = "MemoryError", str(e)[:200]
        except BaseException as e:  # noqa
            self.err, self.msg = type(e).__name__, str(e)[:200]
        signal.alarm(0)
        self.out = buf.getvalue()

    @property
    def st(self):
        return "hang" if self.err == "HANG" else ("err" if self.err else "ok")


# ------------------------------------------------------------- snapshots
def _snap_arr(a):
    if a is None:
        return None
    if isinstance(a, np.ndarray):
        return ("nd", a.dtype.str, a.shape, np.ascontiguousarray(a).tobytes() if a.dtype.kind != "O" else repr(a.tolist()))
    if isinstance(a, (list, tuple)):
        return (type(a).__name__, [_snap_arr(x) for x in a])
    return ("v", repr(a))


def snapshot(mesh):
    return {
        "points": _snap_arr(mesh.points),
        "cells": [(b.type, _snap_arr(b.data)) for b in mesh.cells],
        "point_data": [(k, _snap_arr(v)) for k, v in mesh.point_data.items()],
        "cell_data": [(k, _snap_arr(v)) for k, v in mesh.cell_data.items()],
        "field_data": [(k, _snap_arr(v)) for k, v in (mesh.field_data or {}).items()],
        "point_sets": [(k, _snap_arr(v)) for k, v in (mesh.point_sets or {}).items()],
        "cell_sets": [(k, _snap_arr(v)) for k, v in (mesh.cell_sets or {}).items()],
        "periodic": _snap_arr(getattr(mesh, "gmsh_periodic", None)),
        "info": _snap_arr(getattr(mesh, "info", None)),
    }


def _padded(a, b):
    """did arrays with two columns gain a third one of zeros, and nothing else happen?"""
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 4 and a[0] == b[0] == "nd":
        if a[1] != b[1] or len(a[2]) != 2 or a[2][1] != 2 or b[2] != (a[2][0], 3):
            return False
        x = np.frombuffer(a[3], a[1]).reshape(a[2])
        y = np.frombuffer(b[3], b[1]).reshape(b[2])
        return x.tobytes() == np.ascontiguousarray(y[:, :2]).tobytes() and not y[:, 2].any()
    if isinstance(a, (list, tuple)) and type(a) is type(b) and len(a) == len(b):
        return all(_padded(x, y) for x, y in zip(a, b))
    return False


def changed(a, b):
    """names of the components that differ; those that were merely padded are marked"""
    return sorted(k + ("#padded" if _padded(a[k], b[k]) else "") for k in a if a[k] != b[k])


def kwargs_of(kw):
    out = {}
    for k, v in kw.items():
        if k == "zz":
            continue
        out[k] = None if v == "@none" else v
    return out


def module_of(fmt, what):
    """the read/write function of the format's own module"""
    import importlib

    name = {"dolfin-xml": "dolfin", "vtk42": "vtk", "vtk51": "vtk", "gmsh22": "gmsh"}.get(fmt, fmt)
    return getattr(importlib.import_module("meshio." + name), what)


def _no_null(x):
    if x is None:
        return "null"
    if isinstance(x, dict):
        return {k: _no_null(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_no_null(v) for v in x]
    return x


class Run(ops_api.ApiOps, ops_cli.CliOps):
    Out, meshio, ANNOUNCE = Out, meshio, ANNOUNCE

    def __init__(self, sc, root):
        self.sc = sc
        self.root = root
        self.mem = {}
        self.D = absmesh.Dictionary([m for o in sc["ops"] if "m" in o for m in o["m"].get("pieces", [o["m"]])] + [s["m"] for o in sc["ops"] if o["op"] == "sforeign" for s in o["steps"]])

    def path(self, f):
        return os.path.join(self.root, f)

    def abstract(self, mesh):
        m = absmesh.abstract(mesh, self.D)
        m["sg"] = absmesh.signs(m, np.asarray(mesh.points))
        return m

    # -- operations
    def op_new(self, o):
        r = Out(lambda: ops_api.build(o["m"], o.get("form", "block"), meshio))
        if r.st != "ok":
            return {"st": r.st, "err": r.err, "msg": r.msg}
        self.mem[o["s"]] = r.val
        m = absmesh.abstract(r.val, self.D)
        m["sg"] = absmesh.signs(m, np.asarray(r.val.points))
        m["lay"] = o["m"].get("lay", "c")
        return {"st": "ok", "m": m}

    def op_write(self, o):
        mesh = self.mem.get(o["s"])
        if mesh is None:
            return {"st": "none"}
        before = snapshot(mesh)
        p = self.path(o["f"])
        kw = kwargs_of(o.get("kw", {}))
        fmt, how, base = o["fmt"], o.get("how", "str"), []

        def go():
            if o.get("via") == "gmsh40":
                return meshio.gmsh.write(pathlib.Path(p) if how == "path" else p, mesh, "4.0", **kw)
            if how == "method":
                return mesh.write(p, file_format=fmt, **kw)
            if how == "path":
                return meshio.write(pathlib.Path(p), mesh, file_format=fmt, **kw)
            if how == "ext":
                return meshio.write(p, mesh, **kw)
            if how == "upper":
                q = p[: -len(o["ext"])] + o["ext"].upper() if o.get("ext") else p
                meshio.write(q, mesh, **kw)
                return os.rename(q, p)
            if how == "rel":
                return meshio.write(os.path.relpath(p), mesh, file_format=fmt, **kw)
            if how == "wpc":
                return meshio.write_points_cells(
                    p, mesh.points, [(b.type, b.data) for b in mesh.cells], dict(mesh.point_data), dict(mesh.cell_data),
                    dict(mesh.field_data), dict(mesh.point_sets), dict(mesh.cell_sets), file_format=fmt, **kw)
            if how == "module":
                return module_of(fmt, "write")(p, mesh, **kw)
            if how == "buffer":
                b = io.BytesIO() if o.get("buf") == "b" else io.StringIO()
                base.append(b)
                meshio.write(b, mesh, file_format=fmt, **kw)
                v = b.getvalue()
                with open(p, "wb") as f:
                    f.write(v if isinstance(v, bytes) else v.encode())
                return None
            if how == "open":
                with open(p, "wb" if o.get("buf") == "b" else "w") as f:
                    return meshio.write(f, mesh, file_format=fmt, **kw)
            return meshio.write(p, mesh, file_format=fmt, **kw)

        r = Out(go)
        says = bool(ANNOUNCE.search(r.out)) or any(b.type in r.out for b in mesh.cells)
        res = {
            "st": r.st, "err": r.err, "msg": r.msg, "says": says,
            "mut": changed(before, snapshot(mesh)),
        }
        if res["mut"]:
            a = self.op_look(o)
            if a["st"] == "ok":
                res["after"] = a["m"]
        return res

    def op_read(self, o):
        p = self.path(o["f"])

        fmt, how = o["fmt"], o.get("how", "str")

        def go():
            if how == "path":
                return meshio.read(pathlib.Path(p), file_format=fmt)
            if how == "ext":
                return meshio.read(p)
            if how == "rel":
                return meshio.read(os.path.relpath(p), file_format=fmt)
            if how == "classmethod":
                return meshio.Mesh.read(p, file_format=fmt)
            if how == "upper":
                q = p[: -len(o["ext"])] + o["ext"].upper() if o.get("ext") else p
                shutil.copy(p, q)
                return meshio.read(q)
            if how == "module":
                return module_of(fmt, "read")(p)
            if how == "buffer":
                with open(p, "rb") as f:
                    v = f.read()
                return meshio.read(io.BytesIO(v) if o.get("buf") == "b" else io.StringIO(v.decode()), file_format=fmt)
            if how == "open":
                with open(p, "rb" if o.get("buf") == "b" else "r") as f:
                    return meshio.read(f, file_format=fmt)
            return meshio.read(p, file_format=fmt)

        r = Out(go)
        if r.st != "ok":
            self.mem.pop(o["s"], None)
            return {"st": r.st, "err": r.err, "msg": r.msg}
        self.mem[o["s"]] = r.val
        a = Out(lambda: self.abstract(r.val))
        if a.st != "ok":
            return {"st": "garbled", "err": a.err, "msg": a.msg}
        return {"st": "ok", "m": a.val}

    def op_look(self, o):
        mesh = self.mem.get(o["s"])
        if mesh is None:
            return {"st": "none"}
        a = Out(lambda: self.abstract(mesh))
        if a.st != "ok":
            return {"st": "garbled", "err": a.err, "msg": a.msg}
        return {"st": "ok", "m": a.val}

    def listing(self):
        import hashlib

        out = []
        for d, _, fs in os.walk(self.root):
            for x in fs:
                p = os.path.join(d, x)
                with open(p, "rb") as f:
                    out.append([os.path.relpath(p, self.root), hashlib.md5(f.read()).hexdigest()])
        return sorted(out)

    def op_rwrite(self, o):
        """a write that ought to be refused"""
        mesh = self.mem.get(o["s"])
        if mesh is None:
            return {"st": "none"}
        before, snap = self.listing(), snapshot(mesh)
        p, how, fmt = self.path(o["f"]), o["how"], o["fmt"] or None
        buf = io.StringIO()

        def go():
            if how == "buffer":
                return meshio.write(buf, mesh, fmt)
            if how == "method":
                return mesh.write(p, file_format=fmt)
            if how == "wpc":
                return meshio.write_points_cells(
                    p, mesh.points, [(b.type, b.data) for b in mesh.cells], dict(mesh.point_data), dict(mesh.cell_data),
                    dict(mesh.field_data), dict(mesh.point_sets), dict(mesh.cell_sets), file_format=fmt)
            return meshio.write(pathlib.Path(p) if how == "path" else p, mesh, fmt)

        r = Out(go)
        return {"st": r.st, "err": r.err, "msg": r.msg, "before": before, "after": self.listing() + ([["buffer", ""]] if buf.getvalue() else []),
                "mut": changed(snap, snapshot(mesh))}

    def op_rread(self, o):
        before = self.listing()
        p, how, fmt = self.path(o["f"]), o["how"], o["fmt"] or None
        r = Out(lambda: meshio.read(io.BytesIO(b"") if how == "buffer" else pathlib.Path(p) if how == "path" else p, fmt))
        return {"st": r.st, "err": r.err, "msg": r.msg, "before": before, "after": self.listing()}

    def op_cut(self, o):
        """a copy of the file (with those next to it) in another directory, one of them cut short"""
        src = os.path.dirname(self.path(o["f"]))
        d = self.path(o["dir"])
        os.makedirs(d)
        for x in os.listdir(src):
            if os.path.isfile(os.path.join(src, x)):
                shutil.copy(os.path.join(src, x), d)
        p = os.path.join(d, o["which"])
        if not os.path.exists(p):
            return {"st": "ok", "at": 0, "size": 0, "lost": False}
        with open(p, "rb") as f:
            v = f.read()
        if o["mode"] == "byte":
            ends = range(len(v))
        elif o["mode"] == "line":
            ends = [0] + [m.end() for m in re.finditer(rb"\n", v)]
        else:
            ends = [m.start() for m in re.finditer(rb"\S+", v)]
        n = len(ends)
        k = max(0, n - o["back"]) if o["back"] else n * o["num"] // o["of"]
        cut = ends[min(k, n - 1)] if n else 0
        with open(p, "wb") as f:
            f.write(v[:cut])
        return {"st": "ok", "at": cut, "size": len(v), "lost": bool(v[cut:].strip()),
                "tail": repr(v[max(0, cut - 30):cut]), "next": repr(v[cut:cut + 20])}

    def op_vary(self, o):
        """a copy of the file (with those next to it) in another directory, said in another way"""
        src = os.path.dirname(self.path(o["f"]))
        d = self.path(o["dir"])
        os.makedirs(d)
        for x in os.listdir(src):
            if os.path.isfile(os.path.join(src, x)):
                shutil.copy(os.path.join(src, x), d)
        r = random.Random(o["seed"])
        done = []
        for w in o["which"]:
            p = os.path.join(d, w)
            if not os.path.exists(p):
                return {"st": "none"}
            if o["kind"] in vary.PATHS:
                try:
                    done += vary.vary(o["kind"], o["names"], p, r)[1]
                except Exception as e:
                    return {"st": "err", "err": type(e).__name__, "msg": str(e)[:200]}
                continue
            with open(p, newline="") as f:
                t = f.read()
            try:
                t, n = vary.vary(o["kind"], o["names"], t, r)
            except Exception as e:
                return {"st": "err", "err": type(e).__name__, "msg": str(e)[:200]}
            with open(p, "w", newline="") as f:
                f.write(t)
            done += n
        return {"st": "ok", "done": done}

    def op_foreign(self, o):
        """a file of another program"""
        try:
            b = foreign.make(o, os.path.dirname(self.path(o["f"])))
            with open(self.path(o["f"]), "wb") as f:
                f.write(b)
        except Exception as e:
            return {"st": "err", "err": type(e).__name__, "msg": str(e)[:200]}
        return {"st": "ok"}

    def op_decode(self, o):
        """what is in the file, read without meshio"""
        try:
            raw = decode.decode(o["fid"], self.path(o["f"]))
            m = absmesh.abstract(raw, self.D)
        except Exception as e:
            return {"st": "err", "err": type(e).__name__, "msg": str(e)[:200]}
        return {"st": "ok", "m": m, "ids": [int(x) for x in raw.ids], "counts": raw.counts}

    def op_ls(self, o):
        """names of the files in the scenario's directory"""
        return {"st": "ok", "names": sorted(os.listdir(self.root))}

    def run(self):
        ev = []
        for i, o in enumerate(self.sc["ops"]):
            f = getattr(self, "op_" + o["op"], None)
            res = f(o)
            e = {k: v for k, v in o.items() if k not in ("m", "kw") or (k == "m" and ("chk" in o or o["op"] in ("foreign", "sforeign")))}
            e.update({"sc": self.sc["id"], "fam": self.sc["fam"], "i": i, "res": res})
            ev.append(e)
        return ev


def main(src, dst):
    base = "/dev/shm" if os.path.isdir("/dev/shm") else None
    top = tempfile.mkdtemp(prefix="mvdrv.", dir=base)
    try:
        with open(src) as f, open(dst, "w") as g:
            for n, line in enumerate(f):
                if HANGS > MAX_HANGS:
                    break
                sc = json.loads(line)
                d = os.path.join(top, str(n))
                os.mkdir(d)
                os.chdir(d)
                try:
                    for e in Run(sc, d).run():
                        s = json.dumps(e)
                        if "null" in s:  # TLC's reader has no null
                            s = json.dumps(_no_null(e))
                        g.write(s + "\n")
                finally:
                    os.chdir(top)
                    shutil.rmtree(d, ignore_errors=True)
    finally:
        os.chdir("/")
        shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    main(*sys.argv[1:3])
