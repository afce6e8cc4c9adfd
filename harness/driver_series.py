#!/opt/venv/bin/python
"""Executes time-series scenarios.  usage: driver_series.py SCENARIOS TRACE"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver  # noqa: E402
from driver import Out, absmesh, meshio, np  # noqa: E402

TIMES = [0.0, 0.1, 1 / 3, 1e-300, -5.25, 7, 1e22, 2.5, 100, 12345.678901234567, np.float64(0.7), -1]


def snap(points, cells, pd, cd):
    m = meshio.Mesh.__new__(meshio.Mesh)
    m.points, m.cells = points, [meshio.CellBlock(t, d) for t, d in cells]
    m.point_data, m.cell_data, m.field_data, m.point_sets, m.cell_sets = pd, cd, {}, {}, {}
    return driver.snapshot(m)


class Run(driver.Run):
    def __init__(self, sc, root):
        super().__init__(sc, root)
        self.w, self.r, self.own = {}, {}, {}
        for d in ("sub/deep", "moved"):
            os.makedirs(os.path.join(root, d), exist_ok=True)

    def fail(self, r):
        return {"st": r.st, "err": r.err, "msg": r.msg}

    def op_sforeign(self, o):
        import foreign

        a = Out(lambda: foreign.series(o, os.path.dirname(self.path(o["f"])), TIMES))
        if a.st == "ok":
            with open(self.path(o["f"]), "wb") as f:
                f.write(a.val)
        return self.fail(a)

    def op_cd(self, o):
        os.chdir(os.path.join(self.root, o["d"]))
        return {"st": "ok"}

    def op_mv(self, o):
        """moves the series: everything in its directory whose name starts with its stem"""
        a, b = self.path(o["f"]), self.path(o["g"])
        stem = os.path.basename(a)[:-5]
        for x in os.listdir(os.path.dirname(a)):
            if x.startswith(stem):
                os.rename(os.path.join(os.path.dirname(a), x), os.path.join(os.path.dirname(b), x))
        return {"st": "ok"}

    def op_wopen(self, o):
        def go():
            w = meshio.xdmf.TimeSeriesWriter(self.path(o["f"]), data_format=o["mode"])
            w.__enter__()
            return w

        r = Out(go)
        if r.st == "ok":
            self.w[o["w"]] = (r.val, o["f"])
        return self.fail(r)

    def _mesh(self, o):
        return absmesh.concretise(o["m"], meshio)

    def op_wmesh(self, o):
        if o["w"] not in self.w:
            return {"st": "none", "mut": []}
        m = self._mesh(o)
        cells = m.cells if o["form"] == "block" else [(b.type, b.data) for b in m.cells]
        before = driver.snapshot(m)
        r = Out(lambda: self.w[o["w"]][0].write_points_cells(m.points, cells))
        res = self.fail(r)
        res["m"] = absmesh.abstract(m, self.D)
        res["m"]["sg"] = absmesh.signs(res["m"], np.asarray(m.points))
        res["mut"] = driver.changed(before, driver.snapshot(m))
        return res

    def op_wdata(self, o):
        if o["w"] not in self.w:
            return {"st": "none", "mut": []}
        m = self._mesh(o)
        before = driver.snapshot(m)
        pd, cd = m.point_data or None, m.cell_data or None
        r = Out(lambda: self.w[o["w"]][0].write_data(TIMES[o["t"]], point_data=pd, cell_data=cd))
        res = self.fail(r)
        res["m"] = {k: v for k, v in absmesh.abstract(m, self.D).items() if k in ("pd", "cd")}
        res["mut"] = driver.changed(before, driver.snapshot(m))
        return res

    def op_wclose(self, o):
        if o["w"] not in self.w:
            return {"st": "none", "stray": []}
        w, f = self.w.pop(o["w"])
        r = Out(lambda: w.__exit__(None, None, None))
        res = self.fail(r)
        # files beside those of the series opened so far
        self.own[f] = 1
        for _, (x, g) in self.w.items():
            self.own[g] = 1
        stems = [self.path(x)[:-5] for x in self.own] + [os.path.join(self.root, "moved")]
        res["stray"] = [x for x, _ in self.listing() if not any(self.path(x).startswith(s) for s in stems)]
        return res

    def op_ropen(self, o):
        def go():
            r = meshio.xdmf.TimeSeriesReader(self.path(o["f"]))
            r.__enter__()
            return r

        r = Out(go)
        self.r.pop(o["r"], None)
        res = self.fail(r)
        if r.st == "ok":
            self.r[o["r"]] = r.val
            res["n"] = int(r.val.num_steps)
        return res

    def op_rmesh(self, o):
        if o["r"] not in self.r:
            return {"st": "none"}
        r = Out(lambda: self.r[o["r"]].read_points_cells())
        if r.st != "ok":
            return self.fail(r)
        a = Out(lambda: meshio.Mesh(r.val[0], r.val[1]))
        if a.st != "ok":
            return self.fail(a)
        b = Out(lambda: absmesh.abstract(a.val, self.D))
        if b.st != "ok":
            return {"st": "garbled", "err": b.err, "msg": b.msg}
        b.val["sg"] = absmesh.signs(b.val, np.asarray(a.val.points))
        self.cells = getattr(self, "cells", {})
        self.cells[o["r"]] = r.val
        return {"st": "ok", "m": b.val}

    def op_rdata(self, o):
        if o["r"] not in self.r:
            return {"st": "none"}
        r = Out(lambda: self.r[o["r"]].read_data(o["k"]))
        if r.st != "ok":
            return self.fail(r)
        t, pd, cd = r.val
        fake = meshio.Mesh.__new__(meshio.Mesh)
        fake.points, fake.cells = np.zeros((0, 3)), []
        fake.point_data, fake.cell_data, fake.field_data, fake.point_sets, fake.cell_sets = pd, cd, {}, {}, {}
        b = Out(lambda: absmesh.abstract(fake, self.D))
        if b.st != "ok":
            return {"st": "garbled", "err": b.err, "msg": b.msg}
        return {"st": "ok", "t": next((i for i, x in enumerate(TIMES) if float(x) == float(t)), -1), "pd": b.val["pd"], "cd": b.val["cd"]}

    def op_rclose(self, o):
        if o["r"] not in self.r:
            return {"st": "none"}
        r = self.r.pop(o["r"])
        return self.fail(Out(lambda: r.__exit__(None, None, None)))


driver.Run = Run
if __name__ == "__main__":
    driver.main(*sys.argv[1:3])
