#!/opt/venv/bin/python
"""Executes registry scenarios: real register / deregister / read / write with stub
readers and writers that record who was called.  usage: driver_reg.py SCENARIOS TRACE"""
import io
import json
import os
import pathlib
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from driver import Out, meshio, np  # noqa: E402

helpers = sys.modules["meshio._helpers"]
MAPS = [helpers.extension_to_filetypes, helpers.reader_map, helpers._writer_map]


class Run:
    def __init__(self, sc, root):
        self.sc, self.root = sc, root
        self.calls = []

    def reader(self, name, beh):
        def read(filename, **kw):
            self.calls.append(name)
            if beh == "reject":
                raise meshio.ReadError(f"not {name}")
            if beh == "crash":
                raise ValueError(name)
            return meshio.Mesh(np.zeros((3, 3)), [("triangle", np.array([[0, 1, 2]]))], info=name)

        return read

    def writer(self, name, beh):
        def write(filename, mesh, **kw):
            self.calls.append(name)
            self.got = (filename, kw)
            if beh == "crash":
                raise ValueError(name)
            if hasattr(filename, "write"):
                filename.write(name)
            else:
                with open(filename, "w") as f:
                    f.write(name)

        return write

    def op_reg(self, o):
        r = Out(lambda: meshio.register_format(
            o["n"], list(o["xs"]), None if o["r"] == "none" else self.reader(o["n"], o["r"]),
            {w: self.writer(w, b) for w, b in o["ws"]}))
        return {"st": r.st, "err": r.err, "msg": r.msg}

    def op_dereg(self, o):
        r = Out(lambda: meshio.deregister_format(o["n"]))
        return {"st": r.st, "err": r.err, "msg": r.msg}

    def files(self):
        return sorted(os.path.relpath(os.path.join(d, f), self.root) for d, _, fs in os.walk(self.root) for f in fs)

    def clear(self):
        for f in os.listdir(self.root):
            p = os.path.join(self.root, f)
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)

    def op_read(self, o):
        self.clear()
        p = os.path.join(self.root, o["name"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        have = []
        if o["exists"]:
            open(p, "w").close()
            have = [o["name"]]
        self.calls.clear()
        src = io.StringIO("") if o["buffer"] else pathlib.Path(p) if o["how"] == "path" else p
        fmt = o["fmt"] or None
        if o["how"] == "method":
            r = Out(lambda: meshio.Mesh.read(src, fmt))
        else:
            r = Out(lambda: meshio.read(src, fmt) if fmt else meshio.read(src))
        return {"st": r.st, "err": r.err, "msg": r.msg, "calls": list(self.calls),
                "by": (getattr(r.val, "info", "") or "") if r.st == "ok" else "",
                "files": [f for f in self.files() if f not in have]}

    def op_write(self, o):
        self.clear()
        p = os.path.join(self.root, o["name"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        self.calls.clear()
        self.got = (None, {})
        dst = io.StringIO() if o["buffer"] else pathlib.Path(p) if o["how"] == "path" else p
        cols = {"ok": 3, "few": 2, "many": 4}[o["shape"]]
        cells = [("line", np.array([[0, 1]])), ("triangle", np.arange(cols)[None] % 3)]
        pts = np.zeros((3, 3))
        kw = {o["kwn"]: 5} if o["kwn"] else {}
        fmt = o["fmt"] or None

        def go():
            if o["how"] == "wpc":
                return meshio.write_points_cells(dst, pts, cells, file_format=fmt, **kw)
            mesh = meshio.Mesh(pts, cells)
            if o["how"] == "method":
                return mesh.write(dst, fmt, **kw)
            return meshio.write(dst, mesh, fmt, **kw)

        r = Out(go)
        fs = self.files()
        by = ""
        if r.st == "ok":
            by = dst.getvalue() if o["buffer"] else (open(p).read() if os.path.exists(p) else "")
        elif o["buffer"] and dst.getvalue():
            fs.append("buffer")
        where, k = self.got
        return {"st": r.st, "err": r.err, "msg": r.msg, "calls": list(self.calls), "by": by, "files": fs,
                "kw": ",".join(f"{a}" for a in k), "pathok": int(where is dst if o["buffer"] else where is not None and str(where) == p)}

    def run(self):
        saved = [dict((k, list(v) if isinstance(v, list) else v) for k, v in m.items()) for m in MAPS]
        for m in MAPS:
            m.clear()
        ev = []
        try:
            for i, o in enumerate(self.sc["ops"]):
                res = getattr(self, "op_" + o["op"])(o)
                ev.append(dict(o, sc=self.sc["id"], fam=self.sc["fam"], i=i, res=res))
        finally:
            for m, s in zip(MAPS, saved):
                m.clear()
                m.update(s)
        return ev


def main(src, dst):
    top = tempfile.mkdtemp(prefix="mvdrv.", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    try:
        with open(src) as f, open(dst, "w") as g:
            for n, line in enumerate(f):
                d = os.path.join(top, str(n))
                os.mkdir(d)
                for e in Run(json.loads(line), d).run():
                    g.write(json.dumps(e) + "\n")
                shutil.rmtree(d, ignore_errors=True)
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    main(*sys.argv[1:3])
