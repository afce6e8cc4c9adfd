"""Lexical decoders: what is literally in a file, without meshio.

decode(kind, path) -> Raw.  Cell "types" are the codes found in the file, node numbers are
the numbers found in the file; what they mean is the specification's business (Conform.tla).
"""
import base64
import gzip
import lzma
import os
import re
import struct
import zlib
from xml.etree import ElementTree as ET

import numpy as np


class Block:
    def __init__(self, type, data):
        self.type, self.data = type, data


class Bad(Exception):
    """the file does not have the format's structure"""


def need(c, what):
    if not c:
        raise Bad(what)


class Raw:
    def __init__(self):
        self.points = np.zeros((0, 3))
        self.ids = []  # numbers of the points, where the file gives them
        self.flat = []  # (code, [node numbers])
        self.counts = []  # [what, declared, found]
        self.point_data, self._cd = {}, {}
        self.field_data, self.point_sets, self._cs = {}, {}, {}
        self.eids = []  # numbers of the cells, where the file gives them
        self.gmsh_periodic = None

    def pts(self, rows, dim=None):
        self.points = np.array(rows, dtype=float).reshape(len(rows), -1 if len(rows) else (dim or 3))

    def cell(self, code, nodes):
        self.flat.append((str(code), [int(x) for x in nodes]))

    def cells_of(self, code, arr):
        for r in np.asarray(arr).tolist():
            self.flat.append((str(code), [int(x) for x in r]))

    def count(self, what, declared, found):
        self.counts.append([what, int(declared), int(found)])

    def cd(self, name, values):
        """values: one row per cell, in file order"""
        self._cd[name] = values

    def close(self):
        """group consecutive cells"""
        self.cells, cuts = [], []
        i = 0
        while i < len(self.flat):
            j = i
            while j < len(self.flat) and self.flat[j][0] == self.flat[i][0] and len(self.flat[j][1]) == len(self.flat[i][1]):
                j += 1
            self.cells.append(Block(self.flat[i][0], np.array([c for _, c in self.flat[i:j]], dtype=np.int64).reshape(j - i, -1)))
            cuts.append((i, j))
            i = j
        self.cell_data = {}
        for k, v in self._cd.items():
            v = np.asarray(v)
            need(len(v) == len(self.flat), f"{k}: {len(v)} values for {len(self.flat)} cells")
            self.cell_data[k] = [v[a:b] for a, b in cuts]
        self.cell_sets = {}
        for k, idx in self._cs.items():
            s = set(int(x) for x in idx)
            self.cell_sets[k] = [np.array([x - a for x in range(a, b) if x in s], dtype=int) for a, b in cuts]
        return self


def text(p):
    if p.endswith(".gz"):
        with gzip.open(p, "rt") as f:
            return f.read()
    with open(p, encoding="utf-8") as f:
        return f.read()


def raw(p):
    with open(p, "rb") as f:
        return f.read()


class Words:
    def __init__(self, s, comment=None):
        if comment:
            s = re.sub(re.escape(comment) + "[^\n]*", " ", s)
        self.w, self.i = s.split(), 0

    def next(self):
        need(self.i < len(self.w), "ends too early")
        self.i += 1
        return self.w[self.i - 1]

    def int(self):
        x = self.next()
        need(re.fullmatch(r"[-+]?\d+", x), f"not an integer: {x}")
        return int(x)

    def ints(self, n):
        return [self.int() for _ in range(n)]

    def float(self):
        try:
            return float(self.next())
        except ValueError as e:
            raise Bad(str(e))

    def floats(self, n):
        return [self.float() for _ in range(n)]

    def more(self):
        return self.i < len(self.w)

    def end(self, what="end"):
        need(not self.more(), f"{len(self.w) - self.i} words too many")


class Bytes:
    def __init__(self, b):
        self.b, self.i = b, 0

    def arr(self, dt, n):
        dt = np.dtype(dt)
        k = dt.itemsize * n
        need(self.i + k <= len(self.b), "ends too early")
        a = np.frombuffer(self.b, dtype=dt, count=n, offset=self.i)
        self.i += k
        return a.astype(dt.newbyteorder("="))

    def one(self, dt):
        return self.arr(dt, 1)[0]

    def line(self):
        k = self.b.find(b"\n", self.i)
        need(k >= 0, "line without end")
        s = self.b[self.i:k]
        self.i = k + 1
        return s.decode("utf-8")

    def skip(self):
        while self.i < len(self.b) and self.b[self.i:self.i + 1].isspace():
            self.i += 1

    def more(self):
        return self.i < len(self.b)


# ---------------------------------------------------------------- VTK legacy
VTKDT = {"float": "f4", "double": "f8", "int": "i4", "vtktypeint32": "i4", "vtktypeint64": "i8", "long": "i8", "vtktypeuint64": "u8",
         "unsigned_int": "u4", "unsigned_long": "u8", "short": "i2", "unsigned_short": "u2", "char": "i1", "signed_char": "i1",
         "unsigned_char": "u1", "vtkidtype": "i4", "vtktypeuint32": "u4", "vtktypeint16": "i2", "vtktypeuint16": "u2",
         "vtktypeint8": "i1", "vtktypeuint8": "u1", "vtktypefloat64": "f8", "vtktypefloat32": "f4"}


def vtk(p):
    r, s = Raw(), Bytes(raw(p))
    m = re.match(r"# vtk DataFile Version (\d)\.(\d)", s.line())
    need(m, "no VTK header")
    major = int(m.group(1))
    s.line()
    mode = s.line().strip().upper()
    need(mode in ("ASCII", "BINARY"), "neither ASCII nor BINARY")

    def word():
        s.skip()
        k = s.i
        while s.i < len(s.b) and not s.b[s.i:s.i + 1].isspace():
            s.i += 1
        need(s.i > k, "ends too early")
        return s.b[k:s.i].decode()

    def values(t, n):
        dt = VTKDT.get(t.lower())
        need(dt, f"unknown type {t}")
        if mode == "BINARY":
            return s.arr(">" + dt, n)
        w = [word() for _ in range(n)]
        return np.array([float(x) for x in w] if dt[0] == "f" else [int(x) for x in w], dtype=dt)

    target, n = None, 0
    conn = offs = types = None
    while True:
        s.skip()
        if not s.more():
            break
        h = s.line().split()
        k = h[0].upper()
        if k == "DATASET":
            need(h[1].upper() == "UNSTRUCTURED_GRID", "other dataset")
        elif k == "POINTS":
            r.points = values(h[2], 3 * int(h[1])).reshape(-1, 3)
        elif k == "CELLS":
            a, b = int(h[1]), int(h[2])
            if major >= 5:
                t = s.line().split()
                need(t[0].upper() == "OFFSETS", "no OFFSETS")
                offs = values(t[1], a)
                s.skip()
                t = s.line().split()
                need(t[0].upper() == "CONNECTIVITY", "no CONNECTIVITY")
                conn = values(t[1], b)
            else:
                v = values("int", b).tolist()
                offs, conn, i = [0], [], 0
                while i < len(v):
                    conn += v[i + 1:i + 1 + v[i]]
                    need(i + 1 + v[i] <= len(v), "cell list overflows")
                    offs.append(len(conn))
                    i += 1 + v[i]
                r.count("cells", a, len(offs) - 1)
            need(offs[0] == 0 and offs[-1] == len(conn), "offsets do not fit")
        elif k == "CELL_TYPES":
            types = values("int", int(h[1])).tolist()
        elif k in ("POINT_DATA", "CELL_DATA"):
            target, n = k, int(h[1])
            r.count(k, n, len(r.points) if k == "POINT_DATA" else len(types))
        elif k == "FIELD":
            for _ in range(int(h[2])):
                s.skip()
                a = s.line().split()
                nc, nt = int(a[1]), int(a[2])
                r.count("tuples", n, nt)
                v = values(a[3], nc * nt)
                v = v.reshape(nt, nc) if nc != 1 else v
                if target == "POINT_DATA":
                    r.point_data[a[0]] = v
                else:
                    r.cd(a[0], v)
        elif k == "METADATA":
            while s.more() and s.line().strip():
                pass
        else:
            raise Bad("unknown section " + k)
    need(types is not None and offs is not None, "no cells")
    r.count("types", len(types), len(offs) - 1)
    for i, t in enumerate(types):
        r.cell(t, conn[offs[i]:offs[i + 1]])
    return r


# ---------------------------------------------------------------- VTU
VTUDT = {"Float32": "f4", "Float64": "f8", "Int8": "i1", "Int16": "i2", "Int32": "i4", "Int64": "i8",
         "UInt8": "u1", "UInt16": "u2", "UInt32": "u4", "UInt64": "u8"}


def vtu(p):
    r = Raw()
    root = ET.parse(p).getroot()
    need(root.tag == "VTKFile" and root.get("type") == "UnstructuredGrid", "not a VTU file")
    e = {"LittleEndian": "<", "BigEndian": ">"}[root.get("byte_order")]
    ht = e + VTUDT[root.get("header_type", "UInt32")]
    comp = {None: None, "vtkZLibDataCompressor": zlib.decompress, "vtkLZMADataCompressor": lzma.decompress}[root.get("compressor")]

    def arr(d):
        dt = np.dtype(e + VTUDT[d.get("type")])
        nc = int(d.get("NumberOfComponents", "1"))
        if d.get("format") == "ascii":
            v = (d.text or "").split()
            a = np.array([float(x) for x in v] if dt.kind == "f" else [int(x) for x in v], dtype=dt)
        else:
            need(d.get("format") == "binary", "format")
            t = (d.text or "").strip()
            hs = np.dtype(ht).itemsize
            if comp is None:
                b = base64.b64decode(t)
                n = int(np.frombuffer(b[:hs], ht)[0])
                r.count("bytes", n, len(b) - hs)
                body = b[hs:]
            else:
                k4 = (hs * 3 + 2) // 3 * 4
                nb = int(np.frombuffer(base64.b64decode(t[:k4])[:hs], ht)[0]) if t else 0
                hl = (hs * (3 + nb) + 2) // 3 * 4
                h = np.frombuffer(base64.b64decode(t[:hl])[:hs * (3 + nb)], ht)
                b = base64.b64decode(t[hl:])
                out, i = [], 0
                for j in range(nb):
                    z = int(h[3 + j])
                    out.append(comp(b[i:i + z]))
                    last = j == nb - 1 and int(h[2]) != 0
                    r.count("block", int(h[2]) if last else int(h[1]), len(out[-1]))
                    i += z
                r.count("bytes", i, len(b))
                body = b"".join(out)
            a = np.frombuffer(body, dt)
        a = a.astype(dt.newbyteorder("="))
        return a.reshape(-1, nc) if d.get("NumberOfComponents") and nc != 1 else a

    pieces = root.findall("./UnstructuredGrid/Piece")
    need(len(pieces) == 1, "pieces")
    g = pieces[0]
    r.points = arr(g.find("./Points/DataArray"))
    c = {d.get("Name"): arr(d) for d in g.findall("./Cells/DataArray")}
    need({"connectivity", "offsets", "types"} <= set(c), "cell arrays")
    r.count("points", int(g.get("NumberOfPoints")), len(r.points))
    r.count("cells", int(g.get("NumberOfCells")), len(c["types"]))
    r.count("offsets", len(c["offsets"]), len(c["types"]))
    need(len(c["offsets"]) == 0 or c["offsets"][-1] == len(c["connectivity"]), "offsets do not fit")
    a = 0
    for t, o in zip(c["types"].tolist(), c["offsets"].tolist()):
        r.cell(t, c["connectivity"][a:o])
        a = o
    for d in g.findall("./PointData/DataArray"):
        r.point_data[d.get("Name")] = arr(d)
    for d in g.findall("./CellData/DataArray"):
        r.cd(d.get("Name"), arr(d))
    return r


# ---------------------------------------------------------------- XDMF, HMF
def xdmf_cells(r, tt, conn, npe=None):
    if tt.lower() == "mixed":
        v = [int(x) for x in np.ravel(conn)]
        i = 0
        sizes = {4: 3, 5: 4, 6: 4, 7: 5, 8: 6, 9: 8, 34: 3, 35: 9, 36: 6, 37: 8, 38: 10, 39: 13, 40: 15, 41: 18, 48: 20, 49: 24, 50: 27,
                 51: 64, 52: 125, 53: 216, 54: 343, 55: 512, 56: 729, 57: 1000, 64: 1331}
        while i < len(v):
            c = v[i]
            if c in (1, 2, 3):
                n, i = v[i + 1], i + 1
            else:
                need(c in sizes, f"code {c}")
                n = sizes[c]
            need(i + 1 + n <= len(v), "mixed topology overflows")
            r.cell(str(c), v[i + 1:i + 1 + n])
            i += 1 + n
    else:
        r.cells_of(tt.lower(), np.asarray(conn))


def xdmf(p):
    import h5py

    r = Raw()
    root = ET.parse(p).getroot()
    need(root.tag == "Xdmf", "root")
    grids = root.findall("./Domain/Grid")
    need(len(grids) == 1, "grids")
    g = grids[0]

    def arr(d):
        dims = [int(x) for x in d.get("Dimensions").split()]
        nt, pr = d.get("NumberType", d.get("DataType", "Float")), int(d.get("Precision", "4"))
        dt = {"Float": "f", "Int": "i", "UInt": "u", "Char": "i", "UChar": "u"}[nt] + str({"Char": 1, "UChar": 1}.get(nt, pr))
        f = d.get("Format")
        if f == "XML":
            w = (d.text or "").split()
            a = np.array([float(x) for x in w] if dt[0] == "f" else [int(x) for x in w], dtype=dt)
        elif f == "Binary":
            e = {"Little": "<", "Big": ">", None: "="}[d.get("Endian")]
            a = np.fromfile(os.path.join(os.path.dirname(p), d.text.strip()), dtype=e + dt)
        else:
            need(f == "HDF", "format")
            fn, path = d.text.strip().split(":")
            with h5py.File(os.path.join(os.path.dirname(p), fn), "r") as h:
                a = h[path][()]
            r.count("hdf-rank", len(dims), a.ndim)
            if a.dtype != np.dtype(dt):
                raise Bad(f"stored as {a.dtype}, declared {dt}")
        r.count("values", int(np.prod(dims)), a.size)
        return a.reshape(dims)

    t = g.find("Topology")
    gt = g.find("Geometry").get("GeometryType", g.find("Geometry").get("Type"))
    r.points = arr(g.find("./Geometry/DataItem"))
    r.count("dim", {"XY": 2, "XYZ": 3}[gt], r.points.shape[1])
    xdmf_cells(r, t.get("TopologyType", t.get("Type")), arr(t.find("DataItem")))
    if t.get("NumberOfElements"):
        r.count("cells", int(t.get("NumberOfElements")), len(r.flat))
    for a in g.findall("Attribute"):
        v = arr(a.find("DataItem"))
        c = {"Node": "pd", "Cell": "cd"}[a.get("Center")]
        if c == "pd":
            r.point_data[a.get("Name")] = v
        else:
            r.cd(a.get("Name"), v)
    return r


def hmf(p):
    import h5py

    r = Raw()
    with h5py.File(p, "r") as f:
        g = f["domain/grid"]
        r.points = g["Geometry"][()]
        k = 0
        while f"Topology{k}" in g:
            t = g[f"Topology{k}"]
            tt = t.attrs["TopologyType"]
            xdmf_cells(r, tt if isinstance(tt, str) else tt.decode(), t[()])
            k += 1
        for n, d in g.get("NodeAttributes", {}).items():
            r.point_data[n] = d[()]
        for n, d in g.get("CellAttributes", {}).items():
            r.cd(n, d[()])
    return r


# ---------------------------------------------------------------- Gmsh
GMSHN = {1: 2, 2: 3, 3: 4, 4: 4, 5: 8, 6: 6, 7: 5, 8: 3, 9: 6, 10: 9, 11: 10, 12: 27, 13: 18, 14: 14, 15: 1, 16: 8, 17: 20, 18: 15, 19: 13,
         21: 10, 23: 15, 25: 21, 26: 4, 27: 5, 28: 6, 29: 20, 30: 35, 31: 56, 36: 16, 37: 25, 38: 36, 42: 28, 43: 36, 44: 45, 45: 55, 46: 66,
         47: 49, 48: 64, 49: 81, 50: 100, 51: 121, 62: 7, 63: 8, 64: 9, 65: 10, 66: 11, 71: 84, 72: 120, 73: 165, 74: 220, 75: 286,
         90: 40, 91: 75, 92: 64, 93: 125, 94: 216, 95: 343, 96: 512, 97: 729, 98: 1000, 106: 126, 107: 196, 108: 288, 109: 405, 110: 550}


def gmsh(p):
    r, s = Raw(), Bytes(raw(p))
    need(s.line().strip() == "$MeshFormat", "no $MeshFormat")
    ver, ft, ds = s.line().split()
    need(ds == "8", "data size")
    bin_ = ft == "1"
    if bin_:
        need(s.one("<i4") == 1, "endianness")
    vals = {"i": "<i4", "l": "<u8", "d": "<f8"}

    def word():
        s.skip()
        k = s.i
        while s.i < len(s.b) and not s.b[s.i:s.i + 1].isspace():
            s.i += 1
        need(s.i > k, "ends too early")
        return s.b[k:s.i].decode()

    def get(t, n):
        if bin_:
            return s.arr(vals[t], n).tolist()
        return [float(word()) if t == "d" else int(word()) for _ in range(n)]

    def sec_end(name):
        s.skip()
        need(s.line().strip() == "$End" + name, f"no $End{name}")

    sec_end("MeshFormat")
    rows, etags, ephys, dimtags, entities = [], [], {}, [], {}
    ent_of, pdata, cdata, eid = [], [], [], []
    while True:
        s.skip()
        if not s.more():
            break
        name = s.line().strip()
        need(name.startswith("$"), "section expected, found " + name[:20])
        name = name[1:]
        if name == "PhysicalNames":
            n = int(word())
            s.line()
            for _ in range(n):
                m = re.fullmatch(r'\s*(\d+)\s+(-?\d+)\s+"(.*)"\s*', s.line())
                need(m, "physical name")
                r.field_data[m.group(3)] = [int(m.group(2)), int(m.group(1))]
        elif name == "Entities":
            num = get("l", 4)
            for d in range(4):
                for _ in range(num[d]):
                    tag = get("i", 1)[0]
                    get("d", 3 if d == 0 and ver == "4.1" else 6)
                    phys = get("i", get("l", 1)[0])
                    if d > 0:
                        get("i", get("l", 1)[0])
                    entities[(d, tag)] = phys
        elif name == "Nodes":
            if ver.startswith("2"):
                n = int(word())
                if bin_:
                    s.line()
                for _ in range(n):
                    r.ids.append(get("i", 1)[0])
                    rows.append(get("d", 3))
            else:
                h = get("l", 4 if ver == "4.1" else 2)
                for _ in range(h[0]):
                    a, b, par = get("i", 3)
                    dim, tag = (a, b) if ver == "4.1" else (b, a)
                    need(par == 0, "parametric")
                    k = get("l", 1)[0]
                    if ver == "4.1":
                        r.ids += get("l", k)
                        rows += [get("d", 3) for _ in range(k)]
                    else:
                        for _ in range(k):
                            r.ids.append(get("i", 1)[0])
                            rows.append(get("d", 3))
                    dimtags += [[dim, tag]] * k
                r.count("nodes", h[1], len(rows))
                if ver == "4.1" and rows:
                    r.count("mintag", h[2], min(r.ids))
                    r.count("maxtag", h[3], max(r.ids))
        elif name == "Elements":
            if ver.startswith("2"):
                n = int(word())
                if bin_:
                    s.line()
                k = 0
                while k < n:
                    if bin_:
                        et, m_, nt = get("i", 3)
                    else:
                        m_ = 1
                    for _ in range(m_):
                        if bin_:
                            i = get("i", 1)[0]
                        else:
                            i, et, nt = get("i", 3)
                        need(et in GMSHN, f"element type {et}")
                        t = get("i", nt)
                        eid.append(i)
                        etags.append(t)
                        r.cell(et, get("i", GMSHN[et]))
                    k += m_
                r.count("elements", n, k)
            else:
                h = get("l", 4 if ver == "4.1" else 2)
                for _ in range(h[0]):
                    a, b, et = get("i", 3)
                    dim, tag = (a, b) if ver == "4.1" else (b, a)
                    need(et in GMSHN, f"element type {et}")
                    k = get("l", 1)[0]
                    for _ in range(k):
                        row = get("l" if ver == "4.1" else "i", 1 + GMSHN[et])
                        eid.append(row[0])
                        r.cell(et, row[1:])
                        ent_of.append((dim, tag))
                r.count("elements", h[1], len(r.flat))
                if ver == "4.1" and eid:
                    r.count("mintag", h[2], min(eid))
                    r.count("maxtag", h[3], max(eid))
        elif name == "Periodic":
            n = get("l" if ver == "4.1" and bin_ else "i", 1)[0] if not ver.startswith("2") else int(word())
            out = []
            s2 = ver.startswith("2")
            for _ in range(n):
                if s2:
                    d, a, b = [int(word()) for _ in range(3)]
                    s.skip()
                    aff = None
                    if s.b[s.i:s.i + 6] == b"Affine":
                        word()
                        aff = [float(x) for x in s.line().split()]
                    k = int(word())
                    pairs = [[int(word()), int(word())] for _ in range(k)]
                elif ver == "4.0":
                    d, a, b = get("i", 3)
                    aff = None
                    if bin_:
                        k = int(s.one("<i8"))
                        if k < 0:
                            aff = get("d", 16)
                            k = int(s.one("<i8"))
                    else:
                        w = word()
                        if w == "Affine":
                            aff = [float(word()) for _ in range(16)]
                            w = word()
                        k = int(w)
                    pairs = [get("i", 2) for _ in range(k)]
                else:
                    d, a, b = get("i", 3)
                    na = get("l", 1)[0]
                    aff = get("d", na) or None
                    k = get("l", 1)[0]
                    pairs = [get("l", 2) for _ in range(k)]
                out.append([d, (a, b), aff, pairs])
            r.gmsh_periodic = out
        elif name in ("NodeData", "ElementData"):
            ns = int(s.line())
            st = [s.line() for _ in range(ns)]
            nr = int(s.line())
            [s.line() for _ in range(nr)]
            ni = int(s.line())
            it = [int(s.line()) for _ in range(ni)]
            nc, k = it[1], it[2]
            v = {}
            for _ in range(k):
                i = get("i", 1)[0]
                v[i] = get("d", nc)
            r.count("tuples", k, len(v))
            (pdata if name == "NodeData" else cdata).append((st[0].strip().strip('"'), nc, v))
        else:
            raise Bad("section " + name)
        sec_end(name)
    r.pts(rows)
    r.eids = eid
    r.count("ids", len(set(r.ids)), len(r.ids))
    r.count("eids", len(set(eid)), len(eid))
    for nm, nc, v in pdata:
        need(set(v) == set(r.ids), nm + ": node tags")
        a = np.array([v[i] for i in r.ids])
        r.point_data[nm] = a[:, 0] if nc == 1 else a
    for nm, nc, v in cdata:
        need(set(v) == set(eid), nm + ": element tags")
        a = np.array([v[i] for i in eid])
        r.cd(nm, a[:, 0] if nc == 1 else a)
    if ver == "4.1" and entities:
        r.point_data["gmsh:dim_tags"] = np.array(dimtags, dtype=int)
        need(all(e in entities for e in ent_of), "element of an entity that is not listed")
        if ent_of and all(entities[e] for e in ent_of):
            r.cd("gmsh:physical", np.array([entities[e][0] for e in ent_of]))
        r.cd("gmsh:geometrical", np.array([e[1] for e in ent_of]))
    if ver.startswith("2") and etags and all(len(t) >= 2 for t in etags):
        r.cd("gmsh:physical", np.array([t[0] for t in etags]))
        r.cd("gmsh:geometrical", np.array([t[1] for t in etags]))
    if r.gmsh_periodic:
        pos = {i: k for k, i in enumerate(r.ids)}
        r.gmsh_periodic = [[d, t, a, [[pos[x] for x in q] for q in pr]] for d, t, a, pr in r.gmsh_periodic]
    return r


# ---------------------------------------------------------------- keyword text formats
def abaqus(p):
    r = Raw()
    sec, code, pend = None, None, []
    esets, nsets, name, rows = {}, {}, None, []
    nn = 0
    sizes = {"B31H": 2, "B33H": 3, "CAX4P": 4, "S8R5": 8, "S9R5": 9, "R3D3": 3, "CPE6": 6, "C3D8RH": 8, "C3D20RH": 20, "C3D4": 4,
             "C3D10MH": 10, "C3D6": 6, "C3D15": 15}
    for ln in text(p).splitlines():
        if ln.startswith("**") or not ln.strip():
            continue
        if ln.startswith("*"):
            need(not pend, "element without all its nodes")
            q = [x.strip() for x in ln[1:].split(",")]
            sec = q[0].upper()
            kv = {x.split("=")[0].strip().upper(): x.split("=")[1].strip() for x in q[1:] if "=" in x}
            if sec == "ELEMENT":
                code = kv["TYPE"].upper()
                nn = sizes.get(code)
            elif sec == "NSET":
                name = kv["NSET"]
                nsets.setdefault(name, [])
            elif sec == "ELSET":
                name = kv["ELSET"]
                esets.setdefault(name, [])
            continue
        w = [x.strip() for x in ln.split(",") if x.strip()]
        if sec == "NODE":
            r.ids.append(int(w[0]))
            rows.append([float(x) for x in w[1:]])
        elif sec == "ELEMENT":
            pend += [int(x) for x in w]
            need(nn, f"element type {code}")
            need(len(pend) <= nn + 1, "too many nodes")
            if len(pend) == nn + 1:
                r.eids.append(pend[0])
                r.cell(code, pend[1:])
                pend = []
        elif sec == "NSET":
            need(len(w) <= 16, "more than 16 entries per line")
            nsets[name] += [int(x) for x in w]
        elif sec == "ELSET":
            need(len(w) <= 16, "more than 16 entries per line")
            esets[name] += [int(x) for x in w]
    need(not pend, "element without all its nodes")
    r.pts(rows)
    r.count("ids", len(set(r.ids)), len(r.ids))
    r.count("eids", len(set(r.eids)), len(r.eids))
    pos = {i: k for k, i in enumerate(r.ids)}
    epos = {i: k for k, i in enumerate(r.eids)}
    r.point_sets = {k: np.array([pos[x] for x in v], dtype=int) for k, v in nsets.items()}
    r._cs = {k: [epos[x] for x in v] for k, v in esets.items()}
    return r


def nas_float(s):
    s = s.strip().upper().replace("D", "E")
    m = re.fullmatch(r"([-+]?[\d.]+)([-+]\d+)", s)
    return float(m.group(1) + "E" + m.group(2)) if m else float(s or 0)


def nastran(p):
    r, rows, prefs, refs, cards = Raw(), [], [], [], []
    bulk = False
    for ln in text(p).splitlines():
        if ln.startswith("$") or not ln.strip():
            continue
        if not bulk:
            if ln.strip().upper() == "BEGIN BULK":
                bulk = True
            continue
        if ln.strip().upper().startswith("ENDDATA"):
            break
        if "," in ln:
            f = [x.strip() for x in ln.split(",")]
            key, data = f[0], f[1:9]
            big = key.endswith("*")
        else:
            key = ln[:8].strip()
            big = key.endswith("*") or key.startswith("*")
            w, n = (16, 4) if big else (8, 8)
            data = [ln[8 + i * w:8 + (i + 1) * w].strip() for i in range(n)]
        if key in ("+", "*", "") or key[0] in "+*":
            cards[-1][1] += data
        else:
            cards.append([key.rstrip("*"), list(data)])
    for key, d in cards:
        if key == "GRID":
            r.ids.append(int(d[0]))
            prefs.append(int(d[1]) if d[1] else 0)
            rows.append([nas_float(x) for x in d[2:5]])
        elif key in ("CELAS1",):
            r.eids.append(int(d[0]))
            refs.append(int(d[1]) if d[1] else 0)
            r.cell(key, [int(x) for x in d[2:] if x])
        elif key.startswith("C"):
            r.eids.append(int(d[0]))
            refs.append(int(d[1]) if d[1] else 0)
            r.cell(key, [int(x) for x in d[2:] if x])
    r.pts(rows)
    r.count("ids", len(set(r.ids)), len(r.ids))
    r.count("eids", len(set(r.eids)), len(r.eids))
    r.point_data["nastran:ref"] = np.array(prefs, dtype=int)
    r.cd("nastran:ref", np.array(refs, dtype=int))
    return r


def permas(p):
    r, rows, sec, code, pend = Raw(), [], None, None, []
    for ln in text(p).splitlines():
        if ln.startswith("!") or not ln.strip():
            continue
        if ln.startswith("$"):
            w = ln[1:].split()
            sec = w[0].upper()
            if sec == "ELEMENT":
                code = [x.split("=")[1] for x in w if x.upper().startswith("TYPE=")][0].upper()
            continue
        if ln.lstrip().startswith("&"):
            v = ln.lstrip()[1:].split()
            need(r.flat and sec == "ELEMENT", "continuation")
            r.flat[-1] = (code, r.flat[-1][1] + [int(x) for x in v])
            continue
        v = ln.split()
        if sec == "COOR":
            r.ids.append(int(v[0]))
            rows.append([float(x) for x in v[1:]])
        elif sec == "ELEMENT":
            r.eids.append(int(v[0]))
            r.cell(code, v[1:])
    r.pts(rows)
    r.count("ids", len(set(r.ids)), len(r.ids))
    r.count("eids", len(set(r.eids)), len(r.eids))
    return r


def mdpa(p):
    r, rows = Raw(), []
    stack = []
    for ln in text(p).splitlines():
        ln = ln.split("//")[0].strip()
        if not ln:
            continue
        w = ln.split()
        if w[0] == "Begin":
            stack.append(w[1:])
            continue
        if w[0] == "End":
            need(stack and stack[-1][0] == w[1], "Begin/End")
            stack.pop()
            continue
        if stack and stack[-1][0] == "Nodes":
            r.ids.append(int(w[0]))
            rows.append([float(x) for x in w[1:]])
        elif stack and stack[-1][0] in ("Elements", "Conditions"):
            r.eids.append(int(w[0]))
            r.cell(stack[-1][1], w[2:])
    need(not stack, "block without end")
    r.pts(rows)
    r.count("ids", len(set(r.ids)), len(r.ids))
    return r


MEDITN = {"Edges": 2, "Triangles": 3, "Quadrilaterals": 4, "Tetrahedra": 4, "Hexahedra": 8, "Prisms": 6, "Pyramids": 5, "Hexaedra": 8}


def medit_asc(p):
    r, w = Raw(), Words(text(p), "#")
    need(w.next() == "MeshVersionFormatted", "header")
    w.int()
    dim, rows, refs, prefs, end = 3, [], [], [], False
    while w.more():
        k = w.next()
        if k == "Dimension":
            dim = w.int()
        elif k == "Vertices":
            for _ in range(w.int()):
                rows.append(w.floats(dim))
                prefs.append(w.int())
        elif k in MEDITN:
            for _ in range(w.int()):
                r.cell(k, w.ints(MEDITN[k]))
                refs.append(w.int())
        elif k == "End":
            end = True
            w.end()
        else:
            raise Bad("keyword " + k)
    need(end, "no End")
    r.pts(rows, dim)
    r.point_data["medit:ref"] = np.array(prefs, dtype=int)
    r.cd("medit:ref", np.array(refs, dtype=int))
    return r


def medit_bin(p):
    r, s = Raw(), Bytes(raw(p))
    need(s.one("<i4") == 1, "code")
    ver = int(s.one("<i4"))
    it, pt, ft = {1: ("i4", "i4", "f4"), 2: ("i4", "i4", "f8"), 3: ("i4", "i8", "f8"), 4: ("i8", "i8", "f8")}[ver]
    names = {5: "Edges", 6: "Triangles", 7: "Quadrilaterals", 8: "Tetrahedra", 9: "Prisms", 10: "Hexahedra", 49: "Pyramids"}
    dim, refs, prefs, end = 3, [], [], False
    while s.more():
        k, nxt = int(s.one("<i4")), int(s.one("<" + pt))
        if k == 54:
            end = True
            break
        if k == 3:
            dim = int(s.one("<i4"))
        else:
            n = int(s.one("<" + it))
            if k == 4:
                a = s.arr([("x", "<" + ft, (dim,)), ("r", "<" + it)], n)
                r.points, prefs = a["x"].astype(float).reshape(n, dim), a["r"].tolist()
            else:
                need(k in names, f"keyword {k}")
                a = s.arr("<" + it, n * (MEDITN[names[k]] + 1)).reshape(n, -1)
                r.cells_of(names[k], a[:, :-1])
                refs += a[:, -1].tolist()
        r.count("next", nxt, s.i)
    need(end, "no End")
    r.point_data["medit:ref"] = np.array(prefs, dtype=int)
    r.cd("medit:ref", np.array(refs, dtype=int))
    return r


def off(p):
    r, w = Raw(), Words(text(p), "#")
    need(w.next() == "OFF", "header")
    n, f, _ = w.ints(3)
    r.pts([w.floats(3) for _ in range(n)])
    for _ in range(f):
        k = w.int()
        r.cell(f"face{k}", w.ints(k))
    w.end()
    return r


PLYDT = {"char": "i1", "int8": "i1", "uchar": "u1", "uint8": "u1", "short": "i2", "int16": "i2", "ushort": "u2", "uint16": "u2",
         "int": "i4", "int32": "i4", "uint": "u4", "uint32": "u4", "float": "f4", "float32": "f4", "double": "f8", "float64": "f8",
         "int64": "i8", "uint64": "u8"}  # the last two are an extension


def ply(p):
    r, s = Raw(), Bytes(raw(p))
    need(s.line().strip() == "ply", "header")
    els, fmt = [], None
    while True:
        w = s.line().split()
        if w[0] == "format":
            fmt = w[1]
        elif w[0] == "element":
            els.append((w[1], int(w[2]), []))
        elif w[0] == "property":
            els[-1][2].append(w[1:])
        elif w[0] == "end_header":
            break
        else:
            need(w[0] in ("comment", "obj_info"), "header line")
    need([e[0] for e in els] in (["vertex", "face"], ["vertex"]), "elements")
    e = {"ascii": None, "binary_little_endian": "<", "binary_big_endian": ">"}[fmt]
    for name, n, props in els:
        cols = {q[-1]: [] for q in props}
        for _ in range(n):
            line = s.line().split() if e is None else None
            if line is not None:
                line = line[::-1]

            def get(t, k):
                if e is not None:
                    return s.arr(e + PLYDT[t], k).tolist()
                need(len(line) >= k, "short line")
                return [float(line.pop()) if PLYDT[t][0] == "f" else int(line.pop()) for _ in range(k)]

            for q in props:
                if q[0] == "list":
                    cols[q[3]].append(get(q[2], get(q[1], 1)[0]))
                else:
                    cols[q[1]].append(get(q[0], 1)[0])
            need(not line, "long line")
        if name == "vertex":
            ax = [a for a in "xyz" if a in cols]
            need([q[1] for q in props][:len(ax)] == ax, "coordinates")
            r.points = np.array([cols[a] for a in ax], dtype=float).T.reshape(n, len(ax))
            for q in props:
                if q[1] not in ax:
                    r.point_data[q[1]] = np.array(cols[q[1]], dtype=PLYDT[q[0]])
        else:
            for c in cols[[q[3] for q in props if q[0] == "list"][0]]:
                r.cell(f"face{len(c)}", c)
    s.skip()
    need(not s.more(), "bytes left over")
    return r


def normals(r, nrm):
    """how many normals are the right-hand unit normals of their triangles"""
    ok = 0
    for i, n in enumerate(nrm):
        a, b, c = r.points[3 * i:3 * i + 3]
        x = np.cross(b - a, c - a)
        ln, sc = np.linalg.norm(x), np.linalg.norm(b - a) * np.linalg.norm(c - a)
        if not np.isfinite(sc) or ln <= 1e-4 * sc or sc < 1e-30:
            ok += 1
        else:
            ok += bool(np.dot(n, x) > 0.99 * ln and abs(np.linalg.norm(n) - 1) < 1e-3)
    r.count("normals", len(nrm), ok)


def stl_asc(p):
    r, w = Raw(), Words(text(p))
    need(w.next() == "solid", "header")
    while w.w[w.i] not in ("facet", "endsolid"):
        w.next()
    rows, nrm = [], []
    while w.next() == "facet":
        need(w.next() == "normal", "normal")
        nrm.append(w.floats(3))
        need((w.next(), w.next()) == ("outer", "loop"), "outer loop")
        for _ in range(3):
            need(w.next() == "vertex", "vertex")
            rows.append(w.floats(3))
        need((w.next(), w.next()) == ("endloop", "endfacet"), "endfacet")
        r.cell("facet", [len(rows) - 3, len(rows) - 2, len(rows) - 1])
    r.pts(rows)
    normals(r, np.array(nrm).reshape(-1, 3))
    return r


def stl_bin(p):
    r, b = Raw(), raw(p)
    need(len(b) >= 84 and not b[:5].lower().startswith(b"solid"), "header")
    n = struct.unpack("<I", b[80:84])[0]
    r.count("bytes", 84 + 50 * n, len(b))
    a = np.frombuffer(b[84:84 + 50 * n], dtype=[("n", "<f4", 3), ("v", "<f4", (3, 3)), ("a", "<u2")])
    r.points = a["v"].reshape(-1, 3).astype(float)
    r.cells_of("facet", np.arange(3 * n).reshape(-1, 3))
    normals(r, a["n"].astype(float))
    return r


def obj(p):
    r, rows = Raw(), []
    for ln in text(p).splitlines():
        w = ln.split("#")[0].split()
        if not w:
            continue
        if w[0] == "v":
            rows.append([float(x) for x in w[1:4]])
        elif w[0] == "f":
            r.cell(f"face{len(w) - 1}", [x.split("/")[0] for x in w[1:]])
    r.pts(rows)
    return r


def su2(p):
    r, rows, refs = Raw(), [], []
    t = re.sub("%[^\n]*", "", text(p))
    w = Words(t.replace("=", " = "))
    n = {3: 2, 5: 3, 9: 4, 10: 4, 12: 8, 13: 6, 14: 5}
    dim = 0

    def key():
        k = w.next()
        need(w.next() == "=", "=")
        return k

    def line_elems(cnt, tag):
        for _ in range(cnt):
            c = w.int()
            need(c in n, f"code {c}")
            r.cell(c, w.ints(n[c]))
            refs.append(tag)
            while w.more() and w.i in ends and False:
                pass

    ends = set()
    while w.more():
        k = key()
        if k == "NDIME":
            dim = w.int()
        elif k == "NPOIN":
            m = w.int()
            rows = [w.floats(dim) for _ in range(m)]
        elif k == "NELEM":
            line_elems(w.int(), 0)
        elif k == "NMARK":
            m = w.int()
            for _ in range(m):
                need(key() == "MARKER_TAG", "MARKER_TAG")
                tag = int(w.next())
                need(key() == "MARKER_ELEMS", "MARKER_ELEMS")
                line_elems(w.int(), tag)
        else:
            raise Bad("keyword " + k)
    r.pts(rows, dim)
    r.cd("su2:tag", np.array(refs, dtype=int))
    return r


def ugrid(p):
    name = os.path.basename(p).split(".")
    kind = name[-2] if len(name) > 2 else ""
    r = Raw()
    order = [("tri", 3), ("quad", 4), ("tet", 4), ("pyr", 5), ("pri", 6), ("hex", 8)]
    if not kind:
        w = Words(text(p))
        I, F, end = w.ints, w.floats, w.end
        h = I(7)
        mark = None
    else:
        m = re.fullmatch(r"(l?)([br])([48])(l?)", kind)
        need(m, "kind")
        e = "<" if m.group(1) else ">"
        it = e + ("i8" if m.group(4) else "i4")
        ft = e + "f" + m.group(3)
        s = Bytes(raw(p))
        I = lambda k: s.arr(it, k).tolist()
        F = lambda k: s.arr(ft, k).astype(float).tolist()
        mark = m.group(2) == "r"

        def end():
            need(not s.more(), "bytes left over")

        if mark:
            a = I(1)[0]
            at = s.i
        h = I(7)
        if mark:
            r.count("record", a, s.i - at)
            r.count("record", a, I(1)[0])
            a = I(1)[0]
            at = s.i
    r.pts([F(3) for _ in range(h[0])])
    n = dict(zip([k for k, _ in order], h[1:]))
    refs = []
    for k, c in order[:2]:
        for _ in range(n[k]):
            r.cell(k, I(c))
    refs = I(n["tri"] + n["quad"])
    for k, c in order[2:]:
        for _ in range(n[k]):
            r.cell(k, I(c))
    if mark:
        r.count("record", a, s.i - at)
        r.count("record", a, I(1)[0])
    end()
    r.cd("ugrid:ref", np.array(refs + [0] * (len(r.flat) - len(refs)), dtype=int))
    return r


def tetgen(p):
    r = Raw()
    base = p[:-5] if p.endswith(".node") else p[:-4]
    w = Words(text(base + ".node"), "#")
    n, dim, na, nm = w.ints(4)
    rows, at, mk = [], [], []
    for _ in range(n):
        r.ids.append(w.int())
        rows.append(w.floats(dim))
        at.append(w.floats(na))
        mk.append(w.floats(nm))
    w.end()
    r.pts(rows, dim)
    need(nm in (0, 1), "markers")
    if nm:
        r.point_data["tetgen:ref"] = np.array([m[0] for m in mk])
    for k in range(na):
        r.point_data[f"tetgen:attr{k + 1}"] = np.array([a[k] for a in at])
    w = Words(text(base + ".ele"), "#")
    n, k, na = w.ints(3)
    at = []
    for _ in range(n):
        r.eids.append(w.int())
        r.cell("tet", w.ints(k))
        at.append(w.floats(na))
    w.end()
    for j in range(na):
        r.cd("tetgen:ref" + ("" if j == 0 else str(j + 1)), np.array([a[j] for a in at]))
    return r


def netgen(p):
    r = Raw()
    lines = [x.split("#")[0].split() for x in text(p).splitlines()]
    lines = [x for x in lines if x]
    i, rows, refs, dim, parts, end = 0, [], [], 3, {}, False
    need(lines[0] == ["mesh3d"], "header")
    i = 1
    while i < len(lines):
        k = lines[i][0]
        if k == "endmesh":
            end = True
            break
        n = int(lines[i + 1][0])
        i += 2
        if k == "dimension":
            dim = n
        elif k == "geomtype":
            pass
        else:
            rows_ = 1 if k == "identificationtypes" else n  # all of them on one line
            body = lines[i:i + rows_]
            need(len(body) == rows_, "short section")
            parts[k] = body
            i += rows_
    need(end, "no endmesh")
    for codim, k in enumerate(("materials", "bcnames", "cd2names", "cd3names")):
        for b in parts.get(k, []):
            need(len(b) in (1, 2) and b[0] == str(parts[k].index(b) + 1), "names of " + k)
            if len(b) == 2:
                r.field_data[b[1]] = np.array([int(b[0]), dim - codim])
    if "identifications" in parts:
        t = [int(x) for x in parts["identificationtypes"][0]]
        r.info = {"netgen:identifications": np.array(parts["identifications"], dtype=int), "netgen:identificationtypes": np.array(t)}
    rows = [[float(x) for x in b] for b in parts["points"]]
    r.pts(rows)
    r.points = r.points[:, :dim]
    if dim < 3:
        r.count("flat", 0, sum(1 for b in rows if any(b[dim:])))
    for b in parts.get("surfaceelements", []):
        r.cell("surf" + b[4], b[5:5 + int(b[4])])
        r.count("line", 5 + int(b[4]), len(b))
        refs.append(int(b[1]))
    for b in parts.get("volumeelements", []):
        r.cell("vol" + b[1], b[2:2 + int(b[1])])
        r.count("line", 2 + int(b[1]), len(b))
        refs.append(int(b[0]))
    for b in parts.get("edgesegmentsgi2", []):
        r.cell("edge", b[2:4])
        refs.append(int(b[0]))
    for b in parts.get("pointelements", []):
        r.cell("point", b[0:1])
        refs.append(int(b[1]))
    r.cd("netgen:index", np.array(refs, dtype=int))
    return r


def avsucd(p):
    r = Raw()
    w = Words(re.sub(r"(?m)^#.*$", "", text(p)))
    n, m, pdn, cdn, _ = w.ints(5)
    rows = []
    for _ in range(n):
        r.ids.append(w.int())
        rows.append(w.floats(3))
    r.pts(rows)
    nn = {"pt": 1, "line": 2, "tri": 3, "quad": 4, "tet": 4, "pyr": 5, "prism": 6, "hex": 8}
    mats = []
    for _ in range(m):
        r.eids.append(w.int())
        mats.append(int(float(w.next())))
        c = w.next()
        need(c in nn, "shape " + c)
        r.cell(c, w.ints(nn[c]))

    def data(tot, k, ids):
        if not tot:
            return {}
        na = w.int()
        nc = w.ints(na)
        r.count("components", tot, sum(nc))
        names = []
        for _ in range(na):      # "name, unit": up to the end of the line
            t = w.next()
            names.append(t.rstrip(","))
            need(t.endswith(","), "label")
            w.next()
        v = {}
        for _ in range(k):
            i = w.int()
            v[i] = w.floats(tot)
        need(set(v) == set(ids), "data for other entities")
        out, c = {}, 0
        for nm, q in zip(names, nc):
            a = np.array([v[i][c:c + q] for i in ids]).reshape(k, q)
            out[nm] = a[:, 0] if q == 1 else a
            c += q
        return out

    r.point_data = data(pdn, n, r.ids)
    cds = data(cdn, m, r.eids)
    w.end()
    r.cd("avsucd:material", np.array(mats, dtype=int))
    for k, v in cds.items():
        r.cd(k, v)
    return r


def tecplot(p):
    r = Raw()
    t = text(p)
    i = t.upper().index("ZONE")
    names = re.findall(r'"([^"]*)"', t[t.upper().index("VARIABLES"):i])
    h, body = [], []
    for k, ln in enumerate(t[i:].splitlines()):
        (body if body or (k and re.match(r"\s*[-+.\d]", ln)) else h).append(ln)
    h = " ".join(h)[4:]
    kv = {a.upper(): b for a, b in re.findall(r"([A-Za-z]+)\s*=\s*(\([^)]*\)|[^,\s]+)", h)}
    n, m = int(kv.get("NODES", kv.get("N"))), int(kv.get("ELEMENTS", kv.get("E")))
    zt = kv.get("ZONETYPE", kv.get("ET", "")).upper()
    need(kv.get("DATAPACKING", kv.get("F", "")).upper() in ("BLOCK", "FEBLOCK"), "packing")
    loc = ["N"] * len(names)
    for a, b, c in re.findall(r"\[?(\d+)(?:-(\d+))?\]?\s*=\s*(\w+)", re.sub(r"\[([^\]]*)\]", lambda q: "[" + q.group(1) + "]", kv.get("VARLOCATION", ""))):
        for j in range(int(a), int(b or a) + 1):
            loc[j - 1] = "C" if c.upper() == "CELLCENTERED" else "N"
    for a, c in re.findall(r"\[([\d,\s-]+)\]\s*=\s*(\w+)", kv.get("VARLOCATION", "")):
        for q in a.split(","):
            x = [int(z) for z in q.split("-")]
            for j in range(x[0], x[-1] + 1):
                loc[j - 1] = "C" if c.upper() == "CELLCENTERED" else "N"
    w = Words("\n".join(body))
    vals = [np.array(w.floats(n if L == "N" else m)) for L in loc]
    nn = {"FELINESEG": 2, "FETRIANGLE": 3, "FEQUADRILATERAL": 4, "FETETRAHEDRON": 4, "FEBRICK": 8}
    need(zt in nn, "zone type " + zt)
    for _ in range(m):
        r.cell(zt, w.ints(nn[zt]))
    w.end()
    ax = [k for k in range(len(names)) if names[k].upper() in ("X", "Y", "Z")]
    need([names[k].upper() for k in ax] == ["X", "Y", "Z"][:len(ax)], "coordinates")
    r.points = np.array([vals[k] for k in ax]).T.reshape(n, len(ax))
    for k in range(len(names)):
        if k in ax:
            continue
        if loc[k] == "N":
            r.point_data[names[k]] = vals[k]
        else:
            r.cd(names[k], vals[k])
    return r


def dolfin(p):
    r = Raw()
    root = ET.parse(p).getroot()
    need(root.tag.split("}")[-1] == "dolfin", "root")
    m = root.find("mesh")
    dim, ct = int(m.get("dim")), m.get("celltype")
    vs, cs = m.find("vertices"), m.find("cells")
    r.count("vertices", int(vs.get("size")), len(vs))
    r.count("cells", int(cs.get("size")), len(cs))
    r.pts([[float(v.get(a)) for a in "xyz"[:dim]] for v in vs], dim)
    r.ids = [int(v.get("index")) for v in vs]
    k = {"triangle": 3, "tetrahedron": 4, "interval": 2}[ct]
    for j, c in enumerate(cs):
        need(c.tag == ct and int(c.get("index")) == j, "cell")
        r.cell(ct, [int(c.get(f"v{q}")) for q in range(k)])
    stem = os.path.splitext(os.path.basename(p))[0]
    d = os.path.dirname(p)
    for f in sorted(os.listdir(d)):
        q = re.fullmatch(re.escape(stem) + r"_(.+)\.xml", f)
        if not q:
            continue
        mf = ET.parse(os.path.join(d, f)).getroot().find("mesh_function")
        r.count("entities", int(mf.get("size")), len(mf))
        need(int(mf.get("dim")) == {"triangle": 2, "tetrahedron": 3, "interval": 1}[ct], "dimension of the mesh function")
        ty = mf.get("type")
        v = {int(e.get("index")): (float if ty in ("float", "double") else int)(e.get("value")) for e in mf}
        need(set(v) == set(range(len(r.flat))), "entities")
        r.cd(q.group(1), np.array([v[j] for j in range(len(r.flat))], dtype=float if ty in ("float", "double") else int))
    return r


def wkt(p):
    r, t = Raw(), text(p)
    m = re.fullmatch(r"\s*TIN\s*(?:Z\s*)?\((.*)\)\s*", t, re.S | re.I)
    need(m, "TIN")
    rows = []
    body = m.group(1).strip()
    tri = re.findall(r"\(\(([^()]*)\)\)", body)
    need(re.sub(r"[\s,]", "", re.sub(r"\(\([^()]*\)\)", "", body)) == "", "between the triangles")
    for q in tri:
        v = [[float(x) for x in c.split()] for c in q.split(",")]
        need(len(v) == 4 and v[0] == v[3], "ring")
        r.cell("tri", [len(rows), len(rows) + 1, len(rows) + 2])
        rows += v[:3]
    r.pts(rows)
    return r


def svg(p):
    """paths; the picture's y axis points down"""
    r = Raw()
    root = ET.parse(p).getroot()
    ns = "{http://www.w3.org/2000/svg}"
    need(root.tag == ns + "svg", "root element")
    x0, y0, w, h = (float(x) for x in root.get("viewBox").split())
    rows = []
    for e in root:
        if e.tag != ns + "path":
            need(e.tag == ns + "style", "element " + e.tag)
            continue
        d = e.get("d")
        closed = d.rstrip().endswith("Z")
        v = [[float(x) for x in q.split()] for q in re.split("[ML]", d.rstrip(" Z")) if q.strip()]
        need(d.startswith("M") and d.count("M") == 1 and d.count("L") == len(v) - 1, "path")
        need(all(len(q) == 2 for q in v) and closed == (len(v) > 2), "path")
        r.cell({2: "line", 3: "tri", 4: "quad"}[len(v)], list(range(len(rows), len(rows) + len(v))))
        rows += [[x, y0 + (y0 + h) - y] for x, y in v]
        eps = 1e-5 * (abs(w) + abs(h) + abs(x0) + abs(y0))
        need(all(x0 - eps <= x <= x0 + w + eps and y0 - eps <= y <= y0 + h + eps for x, y in v), "inside the picture")
    r.pts(rows)
    return r


def neuroglancer(p):
    r, s = Raw(), Bytes(raw(p))
    n = int(s.one("<u4"))
    r.points = s.arr("<f4", 3 * n).reshape(-1, 3).astype(float)
    rest = (len(s.b) - s.i)
    r.count("bytes", rest % 12, 0)
    r.cells_of("tri", s.arr("<u4", rest // 4).reshape(-1, 3))
    return r


def flac3d_asc(p):
    r, rows, grp, cur = Raw(), [], {}, None
    for ln in text(p).splitlines():
        if ln.startswith("*") or not ln.strip():
            continue
        w = ln.split()
        if w[0] == "G":
            r.ids.append(int(w[1]))
            rows.append([float(x) for x in w[2:]])
        elif w[0] in ("Z", "F"):
            r.eids.append(int(w[2]))
            r.cell(w[1], w[3:])
        elif w[0] in ("ZGROUP", "FGROUP"):
            m = re.fullmatch(r'([ZF])GROUP\s+"(.*)"\s+SLOT\s+(\S+)\s*', ln.strip())
            need(m, "group")
            cur = ("zone:" if m.group(1) == "Z" else "face:") + m.group(2) + ":" + m.group(3)
            grp[cur] = []
        else:
            grp[cur] += [int(x) for x in w]
    r.pts(rows)
    return flac_sets(r, grp)


def flac_sets(r, grp):
    r.count("ids", len(set(r.ids)), len(r.ids))
    r.count("eids", len(set(r.eids)), len(r.eids))
    pos = {i: k for k, i in enumerate(r.eids)}
    need(all(x in pos for v in grp.values() for x in v), "group of unknown cells")
    r._cs = {k: [pos[x] for x in v] for k, v in grp.items()}
    # faces first
    order = [i for i, c in enumerate(r.flat) if c[0] in ("T3", "Q4")] + [i for i, c in enumerate(r.flat) if c[0] not in ("T3", "Q4")]
    inv = {o: k for k, o in enumerate(order)}
    r.flat = [r.flat[i] for i in order]
    r._cs = {k: [inv[x] for x in v] for k, v in r._cs.items()}
    return r


def flac3d_bin(p):
    r, s, grp, rows = Raw(), Bytes(raw(p)), {}, []
    s.arr("<u4", 2)
    for _ in range(int(s.one("<u4"))):
        r.ids.append(int(s.one("<u4")))
        rows.append(s.arr("<f8", 3).tolist())
    for what, codes in (("zone", {4: "T4", 5: "P5", 6: "W6", 7: "B7", 8: "B8"}), ("face", {3: "T3", 4: "Q4"})):
        for _ in range(int(s.one("<u4"))):
            r.eids.append(int(s.one("<u4")))
            k = int(s.one("<u4"))
            need(k in codes, f"{k} nodes")
            r.cell(codes[k], s.arr("<u4", k))
        for _ in range(int(s.one("<u4"))):
            a = bytes(s.arr("u1", int(s.one("<u2")))).decode()
            b = bytes(s.arr("u1", int(s.one("<u2")))).decode()
            grp[f"{what}:{a}:{b}"] = s.arr("<u4", int(s.one("<u4"))).tolist()
    need(not s.more(), "bytes left over")
    r.pts(rows)
    return flac_sets(r, grp)


def ansys(p):
    r, b = Raw(), raw(p)
    i, dim, rows = 0, 3, []
    kinds = {1: 3, 2: 4, 3: 4, 4: 8, 5: 5, 6: 6}
    tot = {}
    while True:
        while i < len(b) and b[i:i + 1].isspace():
            i += 1
        if i >= len(b):
            break
        m = re.compile(rb"\(\s*(\d+)\s*").match(b, i)
        need(m, "section")
        sec, i = int(m.group(1)), m.end()
        if sec in (0, 1):
            i = b.index(b")", i) + 1
            continue
        if sec == 2:
            e = b.index(b")", i)
            dim = int(b[i:e])
            i = e + 1
            continue
        m = re.compile(rb"\(([^)]*)\)\s*").match(b, i)
        need(m, "header of section %d" % sec)
        h = [int(x, 16) for x in m.group(1).split()]
        i = m.end()
        if h[0] == 0:
            tot[sec % 1000 if sec > 1000 else sec] = h[2] - h[1] + 1
            need(b[i:i + 1] == b")", "declaration")
            i += 1
            continue
        need(b[i:i + 1] == b"(", "body")
        i += 1
        n = h[2] - h[1] + 1
        per = dim if sec in (10, 2010, 3010) else kinds[h[4]]
        if sec in (10, 12):
            e = b.index(b")", i)
            w = b[i:e].split()
            v = [float(x) for x in w] if sec == 10 else [int(x, 16) for x in w]
            i = b.index(b")", e + 1) + 1
        else:
            need(b[i:i + 1] == b"\n", "newline before the data")
            dt = {2010: "<f4", 3010: "<f8", 2012: "<i4", 3012: "<i8"}[sec]
            k = n * per * int(dt[2])
            v = np.frombuffer(b[i + 1:i + 1 + k], dt).tolist()
            i += 1 + k
            m = re.compile(rb"\s*\)\s*End of Binary Section\s+(\d+)\s*\)").match(b, i)
            need(m and int(m.group(1)) == sec, "end of binary section")
            i = m.end()
        r.count("values", n * per, len(v))
        if sec % 1000 == 10:
            need(len(h) < 5 or h[4] == dim, "dimension of the nodes")
            rows += [v[k * per:(k + 1) * per] for k in range(n)]
        else:
            for k in range(n):
                r.cell(h[4], v[k * per:(k + 1) * per])
    r.pts(rows, dim)
    r.count("nodes", tot.get(10, -1), len(rows))
    r.count("cells", tot.get(12, -1), len(r.flat))
    return r


# ---------------------------------------------------------------- HDF5 / netCDF
def med(p):
    import h5py

    r = Raw()
    with h5py.File(p, "r") as f:
        need({"ENS_MAA", "INFOS_GENERALES"} <= set(f), "groups")
        ms = list(f["ENS_MAA"])
        need(len(ms) == 1, "meshes")
        m = f["ENS_MAA"][ms[0]]
        dim = int(m.attrs["ESP"])
        st = m[list(m)[0]]
        coo = st["NOE/COO"]
        n = int(coo.attrs["NBR"])
        r.count("coordinates", n * dim, coo.size)
        r.points = coo[()].reshape(dim, n).T
        if "FAM" in st["NOE"]:
            r.point_data["point_tags"] = st["NOE/FAM"][()]
        sizes = {}
        fams = []
        for t in st["MAI"]:
            nod = st["MAI"][t]["NOD"]
            k = int(nod.attrs["NBR"])
            sizes[t] = k
            r.cells_of(t, nod[()].reshape(-1, k).T)
            fams.append(st["MAI"][t]["FAM"][()] if "FAM" in st["MAI"][t] else None)
        if fams and all(x is not None for x in fams):
            r.cd("cell_tags", np.concatenate(fams))
        for nm in f.get("CHA", {}):
            g = f["CHA"][nm]
            nc = int(g.attrs["NCO"])
            need(g.attrs["MAI"] in (ms[0], ms[0].encode()), "mesh of the field")
            step = g[list(g)[0]]

            def val(q, k):
                d = q[list(q)[0]]
                r.count("values", k * nc, d["CO"].size)
                r.count("nbr", k, int(d.attrs["NBR"]))
                a = d["CO"][()].reshape(nc, k).T
                return a[:, 0] if nc == 1 else a

            if "NOE" in step:
                r.point_data[nm] = val(step["NOE"], n)
            mai = [t for t in st["MAI"] if "MAI." + t in step]
            if mai:
                need(len(mai) == len(sizes), "field on some types only")
                r.cd(nm, np.concatenate([val(step["MAI." + t], sizes[t]) for t in mai]))
    return r


def h5m(p):
    import h5py

    r = Raw()
    with h5py.File(p, "r") as f:
        t = f["tstt"]
        c = t["nodes/coordinates"]
        r.points = c[()]
        s0 = int(c.attrs["start_id"])
        r.ids = list(range(s0, s0 + len(r.points)))
        for k, v in t["nodes"].get("tags", {}).items():
            r.point_data[k] = v[()]
        seen = set(r.ids)
        for k in t["elements"]:
            q = t["elements"][k]["connectivity"]
            r.cells_of(k, q[()])
            s1 = int(q.attrs["start_id"])
            mine = set(range(s1, s1 + len(q)))
            r.count("handles", 0, len(mine & seen))
            seen |= mine
        r.count("max_id", int(t.attrs["max_id"]), max(seen) + (int(t.attrs["max_id"]) - max(seen) == 1))
    return r


def cgns(p):
    import h5py

    r = Raw()
    with h5py.File(p, "r") as f:
        z = f["Base/Zone1"]
        r.points = np.column_stack([z["GridCoordinates/Coordinate" + a][" data"][()] for a in "XYZ"])
        e = z["GridElements"]
        c = e["ElementConnectivity"][" data"][()]
        a, b = e["ElementRange"][" data"][()].tolist()
        n = b - a + 1
        need(n > 0 and len(c) % n == 0, "range")
        r.cells_of(f"tet{len(c) // n}", c.reshape(n, -1))
    return r


def exodus(p):
    import netCDF4

    r = Raw()
    d = netCDF4.Dataset(p)
    try:
        dim = len(d.dimensions["num_dim"])
        if "coord" in d.variables:
            r.points = np.asarray(d["coord"][:]).T
        else:
            r.points = np.column_stack([np.asarray(d["coord" + a][:]) for a in "xyz"[:dim]])
        r.count("nodes", len(d.dimensions["num_nodes"]), len(r.points))
        nb = len(d.dimensions["num_el_blk"])
        for k in range(1, nb + 1):
            v = d[f"connect{k}"]
            r.cells_of(v.elem_type.upper(), np.asarray(v[:]))
        r.count("cells", len(d.dimensions["num_elem"]), len(r.flat))

        def names(v):
            return [b"".join(x for x in row.tolist() if x).decode().strip("\x00").strip() for row in np.ma.filled(d[v][:], b"")]

        if "name_nod_var" in d.variables:
            for k, n in enumerate(names("name_nod_var")):
                r.point_data[n] = np.asarray(d[f"vals_nod_var{k + 1}"][0])
        if "ns_names" in d.variables:
            for k, n in enumerate(names("ns_names")):
                r.point_sets[n] = np.asarray(d[f"node_ns{k + 1}"][:]) - 1
    finally:
        d.close()
    return r


KINDS = {
    "abaqus": abaqus, "ansys-bin": ansys, "ansys-asc": ansys, "avsucd": avsucd, "cgns": cgns, "dolfin": dolfin, "exodus": exodus,
    "flac3d-asc": flac3d_asc, "flac3d-bin": flac3d_bin, "h5m": h5m, "hmf": hmf, "mdpa": mdpa, "med": med,
    "medit-asc": medit_asc, "medit-bin": medit_bin, "nastran": nastran, "netgen": netgen, "neuroglancer": neuroglancer, "obj": obj,
    "off": off, "permas": permas, "stl-bin": stl_bin, "stl-asc": stl_asc, "su2": su2, "tecplot": tecplot, "svg": svg, "tetgen": tetgen, "wkt": wkt,
}


def decode(kind, p):
    for pre, f in (("gmsh", gmsh), ("vtk", vtk), ("vtu", vtu), ("xdmf", xdmf), ("ugrid", ugrid), ("ply", ply)):
        if kind.startswith(pre):
            return f(p).close()
    return (KINDS.get(kind) or KINDS[kind.split("-")[0]])(p).close()
