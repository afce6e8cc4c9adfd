"""Driver operations on the mesh object itself (construction forms, views, copies, conversions)."""
import numpy as np

import absmesh


def tolist(a):
    return a.tolist() if isinstance(a, np.ndarray) else a


def build(m, form, meshio):
    """the mesh `m`, handed to the constructor in the given form"""
    if form == "block":
        return absmesh.concretise(m, meshio)
    got = {}

    class Grab:
        CellBlock = meshio.CellBlock
        _mesh = meshio._mesh

        @staticmethod
        def Mesh(points, cells, **kw):
            got.update(kw, points=points, cells=cells)

    absmesh.concretise(m, Grab)
    cells = [(b.type, b.data) for b in got.pop("cells")]
    points = got.pop("points")
    if form == "lists":
        points = points.tolist()
        cells = [(t, d.tolist()) for t, d in cells]
        got["point_data"] = {k: v.tolist() for k, v in got["point_data"].items()}
        got["cell_data"] = {k: [x.tolist() for x in v] for k, v in got["cell_data"].items()}
        got["point_sets"] = {k: v.tolist() for k, v in got["point_sets"].items()}
        got["cell_sets"] = {k: [None if x is None else x.tolist() for x in v] for k, v in got["cell_sets"].items()}
    if form == "dict":
        cells = dict(cells)
    return meshio.Mesh(points, cells, **got)


def poke(mesh, kind):
    """changes a mesh in place, as deeply as possible"""
    if kind == "points":
        mesh.points += 1.5
    elif kind == "cells":
        for b in mesh.cells:
            b.data[:] = b.data[:, ::-1].copy()
            if len(b.data):
                b.data[0, 0] = 0 if b.data[0, 0] else 1
    elif kind == "pd":
        for v in mesh.point_data.values():
            v[...] = 77
    elif kind == "cd":
        for v in mesh.cell_data.values():
            for x in v:
                x[...] = 77
            v.reverse()
    elif kind == "fd":
        mesh.field_data["poked"] = [1, 2]
    elif kind == "ps":
        for k in mesh.point_sets:
            mesh.point_sets[k] = [0]
    elif kind == "cs":
        for v in mesh.cell_sets.values():
            for i in range(len(v)):
                v[i] = np.array([0])
    elif kind == "keys":
        for d in (mesh.point_data, mesh.cell_data, mesh.point_sets, mesh.cell_sets):
            d.clear()
    elif kind == "blocks":
        mesh.cells.append(mesh.cells.pop(0))
        mesh.cells[-1].type = "vertex"
    elif kind == "sets":
        for v in list(mesh.point_sets.values()) + [x for s in mesh.cell_sets.values() for x in s]:
            if v is not None and len(v):
                v[0] = 99


class ApiOps:
    def op_views(self, o):
        mesh = self.mem.get(o["s"])
        if mesh is None:
            return {"st": "none"}
        Out, D = self.Out, self.D

        def cellsof(a):
            return [[int(x) for x in r] for r in np.asarray(a).tolist()]

        def wrap(fn):
            r = Out(fn)
            return {"st": r.st, "v": r.val} if r.st == "ok" else {"st": r.st, "err": r.err, "msg": r.msg}

        res = {"st": "ok"}
        res["cells"] = wrap(lambda: [{"t": t, "c": cellsof(c)} for t, c in mesh.cells_dict.items()])
        res["data"] = wrap(lambda: [
            {"n": n, "per": [{"t": t, "r": absmesh.abstract_rows(a, D)[0]} for t, a in per.items()]}
            for n, per in mesh.cell_data_dict.items()])
        res["sets"] = wrap(lambda: [
            {"n": n, "per": [{"t": t, "m": absmesh._int_list(a)} for t, a in per.items()]}
            for n, per in mesh.cell_sets_dict.items()])
        res["types"] = []
        for t in o["ask"]:
            r = Out(lambda: mesh.get_cells_type(t))
            g = {"t": t, "st": r.st, "c": [], "cols": -1}
            if r.st == "ok":
                g.update(c=cellsof(r.val), cols=int(np.asarray(r.val).shape[1]))
            res["types"].append(g)
        res["dtypes"] = []
        for n, t in o["pairs"]:
            r = Out(lambda: absmesh.abstract_rows(mesh.get_cell_data(n, t), D)[0])
            res["dtypes"].append({"n": n, "t": t, "st": r.st, "r": r.val if r.st == "ok" else []})
        res["blocks"] = [{"t": b.type, "n": len(b), "dim": int(b.dim)} for b in mesh.cells]
        r = Out(lambda: [repr(mesh)] + [repr(b) for b in mesh.cells])
        res["repr"] = r.st
        return res

    def op_copy(self, o):
        mesh = self.mem.get(o["s"])
        if mesh is None:
            return {"st": "none"}
        r = self.Out(mesh.copy)
        if r.st != "ok":
            return {"st": r.st, "err": r.err, "msg": r.msg}
        self.mem[o["s2"]] = r.val
        return self.op_look({"s": o["s2"]})

    def op_poke(self, o):
        mesh = self.mem.get(o["s"])
        r = self.Out(lambda: poke(mesh, o["kind"]))
        return {"st": "ok", "err": r.err, "msg": r.msg}

    def _conv(self, o, fn):
        mesh = self.mem.get(o["s"])
        if mesh is None:
            return {"st": "none"}
        r = self.Out(lambda: fn(mesh))
        a = self.op_look(o)
        res = {"st": r.st, "err": r.err, "msg": r.msg}
        if a["st"] != "ok":
            return {"st": "garbled", "err": a["err"], "msg": a["msg"]}
        res["m"] = a["m"]
        return res

    def op_p2d(self, o):
        return self._conv(o, lambda m: m.point_sets_to_data(o["join"], o["name"] or None))

    def op_c2d(self, o):
        return self._conv(o, lambda m: m.cell_sets_to_data(o["name"] or None))

    def op_pd2s(self, o):
        return self._conv(o, lambda m: m.point_data_to_sets(o["key"]))

    def op_cd2s(self, o):
        return self._conv(o, lambda m: m.cell_data_to_sets(o["key"]))
