"""Writes files the way other programs do, from a description (see spec/Foreign.tla).
Nothing here knows what a reader should make of them."""
import base64
import lzma
import os
import zlib

import numpy as np

import absmesh

VTKNAME = {"f8": "double", "f4": "float", "i4": "int", "i8": "long", "u1": "unsigned_char", "i2": "short", "u4": "unsigned_int", "u8": "unsigned_long"}
CODE = {"vertex": 1, "line": 3, "triangle": 5, "quad": 9, "tetra": 10, "hexahedron": 12, "wedge": 13, "pyramid": 14}


def text(a):
    a = np.asarray(a)
    if a.dtype.kind in "iu":
        return " ".join(str(int(x)) for x in a.ravel())
    return " ".join(repr(float(x)) for x in a.ravel())


class Out:
    def __init__(self, binary):
        self.b, self.binary = bytearray(), binary

    def line(self, s):
        self.b += (s + "\n").encode()

    def nums(self, a, dt=None):
        a = np.asarray(a)
        if dt:
            a = a.astype(dt)
        if self.binary:
            self.b += a.astype(a.dtype.newbyteorder(">")).tobytes() + b"\n"
        else:
            rows = a.reshape(len(a), -1) if a.size else a.reshape(0, 1)
            for r in rows:
                self.line(text(r))


def vtk_arrays(o, arrs, hows, n, prof, table):
    for d, how in zip(arrs, hows):
        a = absmesh.data_rows(d["r"], d["nc"], d["dt"], prof)
        t = VTKNAME[d["dt"]]
        if how == "SCALARS":
            nc = max(d["nc"], 1)
            o.line(f"SCALARS {d['n']} {t}" + (f" {nc}" if nc > 1 or len(d["n"]) % 2 else ""))
            o.line("LOOKUP_TABLE " + ("default" if table != "lut" else "tab"))
            o.nums(a)
        elif how == "VECTORS":
            o.line(f"VECTORS {d['n']} {t}")
            o.nums(a)
        elif how == "TENSORS":
            o.line(f"TENSORS {d['n']} {t}")
            o.nums(a)
    fs = [d for d, how in zip(arrs, hows) if how == "FIELD"]
    if table == "lut" and any(h == "SCALARS" for h in hows):
        o.line("LOOKUP_TABLE tab 3")
        if o.binary:
            o.b += bytes([0, 0, 0, 255, 9, 10, 13, 255, 255, 255, 255, 255]) + b"\n"
        else:
            o.line("0.0 0.0 0.0 1.0\n0.5 0.5 0.5 1.0\n1.0 1.0 1.0 1.0")
    if table == "color":
        o.line("COLOR_SCALARS col 3")
        if o.binary:
            o.b += bytes((7 * i) % 256 for i in range(3 * n)) + b"\n"
        else:
            for i in range(n):
                o.line("0.25 0.5 1.0")
    if fs:
        o.line(f"FIELD FieldData {len(fs)}")
        for d in fs:
            a = absmesh.data_rows(d["r"], d["nc"], d["dt"], prof)
            o.line(f"{d['n']} {max(d['nc'], 1)} {len(d['r'])} {VTKNAME[d['dt']]}")
            o.nums(a)


def vtk(d):
    o = Out(d["bin"])
    m, prof = d["m"], d["m"]["prof"]
    o.line(f"# vtk DataFile Version {d['ver']}")
    o.line("made by another program")
    o.line("BINARY" if d["bin"] else "ASCII")
    o.line("DATASET " + d["ds"])
    meta = lambda: (o.line("METADATA"), o.line("INFORMATION 0"), o.line("")) if d["meta"] else None
    pt = VTKNAME[m["pdt"]]
    if d["ds"] == "STRUCTURED_POINTS":
        o.line("DIMENSIONS %d %d %d" % tuple(d["dims"]))
        lat = [absmesh.LATTICE[a] for a in range(3)]
        sp = ("ASPECT_RATIO" if d["aspect"] else "SPACING") + " " + " ".join(repr(x[1]) for x in lat)
        org = "ORIGIN " + " ".join(repr(x[0]) for x in lat)
        for x in (sp, org) if d["cellsfirst"] else (org, sp):
            o.line(x)
    elif d["ds"] == "RECTILINEAR_GRID":
        o.line("DIMENSIONS %d %d %d" % tuple(d["dims"]))
        for a in range(3):
            o.line(f"{'XYZ'[a]}_COORDINATES {d['dims'][a]} {pt}")
            o.nums(np.array([absmesh.axis_value(a, i) for i in range(d["dims"][a])], dtype=m["pdt"]))
    else:
        if d["ds"] == "STRUCTURED_GRID":
            o.line("DIMENSIONS %d %d %d" % tuple(d["dims"]))
        o.line(f"POINTS {len(m['pts'])} {pt}")
        o.nums(absmesh.points_array(m))
        meta()
        if d["ds"] == "UNSTRUCTURED_GRID":
            cells = [(CODE[b["t"]], c) for b in m["blocks"] for c in b["c"]]
            conn = [x for _, c in cells for x in c]
            if d["ver"] == "5.1":
                o.line(f"CELLS {len(cells) + 1} {len(conn)}")
                o.line("OFFSETS vtktypeint64")
                o.nums(np.cumsum([0] + [len(c) for _, c in cells]), "i8")
                o.line("CONNECTIVITY vtktypeint64")
                o.nums(np.array(conn), "i8")
            else:
                o.line(f"CELLS {len(cells)} {len(conn) + len(cells)}")
                if d["bin"]:
                    o.nums(np.array([x for _, c in cells for x in [len(c), *c]]), "i4")
                else:
                    for _, c in cells:
                        o.line(" ".join(map(str, [len(c), *c])))
            o.line(f"CELL_TYPES {len(cells)}")
            o.nums(np.array([t for t, _ in cells]), "i4")
    ncell = sum(len(b["c"]) for b in m["blocks"])
    cd = [dict(x, r=[t for r in x["r"] for t in r]) for x in m["cd"]]

    def points():
        if m["pd"]:
            o.line(f"POINT_DATA {len(m['pts'])}")
            vtk_arrays(o, m["pd"], d["ph"], len(m["pts"]), prof, d["table"])

    def cells_():
        if cd:
            o.line(f"CELL_DATA {ncell}")
            vtk_arrays(o, cd, d["ch"], ncell, prof, d["table"])

    for g in (cells_, points) if d["cellsfirst"] else (points, cells_):
        g()
    return bytes(o.b)


VTUNAME = {"f8": "Float64", "f4": "Float32", "i4": "Int32", "i8": "Int64", "u1": "UInt8", "i2": "Int16", "u4": "UInt32", "u8": "UInt64"}


class Vtu:
    def __init__(self, d):
        self.d, self.app, self.out, self.seen = d, bytearray(), [], {}
        self.e = "<" if d["bo"] == "LittleEndian" else ">"
        self.h = np.dtype({"": "u4", "UInt32": "u4", "UInt64": "u8"}[d["hdr"]]).newbyteorder(self.e)

    def chunk(self, a):
        """(header, data) of one array"""
        raw = a.astype(a.dtype.newbyteorder(self.e)).tobytes()
        if self.d["comp"] == "none":
            return np.array([len(raw)], self.h).tobytes(), raw
        z = {"zlib": zlib.compress, "lzma": lzma.compress}[self.d["comp"]]
        n = self.d["blk"]
        parts = [raw[i:i + n] for i in range(0, len(raw), n)]
        zs = [z(x) for x in parts]
        last = len(parts[-1]) % n if parts else 0
        return np.array([len(parts), n, last] + [len(x) for x in zs], self.h).tobytes(), b"".join(zs)

    def array(self, name, a, nc):
        d = self.d
        t = VTUNAME[a.dtype.str[1:]]
        head = f'<DataArray type="{t}"' + (f' Name="{name}"' if name else "") + (f' NumberOfComponents="{nc}"' if nc else "")
        if d["enc"] == "ascii":
            body = text(a) if not d["spare"] else "\n" + "\n".join("  " + text(r) for r in (a.reshape(len(a), -1) if a.size else [])) + "\n"
            self.out.append(head + ' format="ascii">' + body + "</DataArray>")
            return
        h, raw = self.chunk(a)
        b64 = lambda x: base64.b64encode(x)
        txt = b64(h) + b64(raw) if d["comp"] != "none" or d["sep"] else b64(h + raw)
        if d["enc"] == "binary":
            pad = "\n          " if d["spare"] else ""
            self.out.append(head + ' format="binary">' + pad + txt.decode() + pad + "</DataArray>")
        else:
            chunk = h + raw if d["enc"] == "appraw" else txt
            at = self.seen.get(chunk, len(self.app)) if d["share"] else len(self.app)
            self.out.append(head + f' format="appended" offset="{at}"/>')
            if at == len(self.app):
                self.seen[chunk] = at
                self.app += chunk

    def make(self):
        d = self.d
        at = f'type="UnstructuredGrid" version="{d["ver"]}" byte_order="{d["bo"]}"'
        at += f' header_type="{d["hdr"]}"' if d["hdr"] else ""
        at += {"none": "", "zlib": ' compressor="vtkZLibDataCompressor"', "lzma": ' compressor="vtkLZMADataCompressor"'}[d["comp"]]
        self.out += ['<?xml version="1.0"?>', f"<VTKFile {at}>"] + (["<!-- made by another program -->"] if d["spare"] else []) + ["<UnstructuredGrid>"]
        for m in d["m"]["pieces"]:
            cells = [(CODE[b["t"]], c) for b in m["blocks"] for c in b["c"]]
            self.out.append(f'<Piece NumberOfPoints="{len(m["pts"])}" NumberOfCells="{len(cells)}">')

            def points():
                self.out.append("<Points>")
                self.array("Points", absmesh.points_array(m), 3)
                self.out.append("</Points>")

            def conn():
                self.out.append("<Cells>")
                off = np.cumsum([len(c) for _, c in cells])
                arrs = [("connectivity", np.array([x for _, c in cells for x in c], d["conn"])), ("offsets", off.astype(d["conn"])),
                        ("types", np.array([t for t, _ in cells], "u1"))]
                perm = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)][d["turn"]]
                for i in perm:
                    self.array(*arrs[i], 1 if d["spare"] and d["first"] else 0)
                self.out.append("</Cells>")

            def pdata():
                self.out.append("<PointData" + (f' Scalars="{m["pd"][0]["n"]}"' if m["pd"] and d["spare"] else "") + ">")
                for x in m["pd"]:
                    self.array(x["n"], absmesh.data_rows(x["r"], x["nc"], x["dt"], m["prof"]), x["nc"] or (1 if d["sep"] else 0))
                self.out.append("</PointData>")

            def cdata():
                self.out.append("<CellData>")
                for x in m["cd"]:
                    self.array(x["n"], absmesh.data_rows([t for r in x["r"] for t in r], x["nc"], x["dt"], m["prof"]), x["nc"] or (1 if d["sep"] else 0))
                self.out.append("</CellData>")

            for f in (pdata, cdata, points, conn) if d["first"] else (points, conn, pdata, cdata):
                f()
            self.out.append("</Piece>")
        self.out.append("</UnstructuredGrid>")
        b = "\n".join(self.out).encode() + b"\n"
        if d["enc"] in ("appraw", "app64"):
            b += b'<AppendedData encoding="' + (b"raw" if d["enc"] == "appraw" else b"base64") + b'">\n  _' + bytes(self.app) + b"\n  </AppendedData>\n"
        return b + b"</VTKFile>\n"


XNAME = {"vertex": ["Polyvertex"], "line": ["Polyline"], "line3": ["Edge_3"], "quad": ["Quadrilateral"], "quad8": ["Quadrilateral_8", "Quad_8"],
         "quad9": ["Quadrilateral_9", "Quad_9"], "pyramid": ["Pyramid"], "pyramid13": ["Pyramid_13"], "tetra": ["Tetrahedron"], "triangle": ["Triangle"],
         "triangle6": ["Triangle_6", "Tri_6"], "tetra10": ["Tetrahedron_10", "Tet_10"], "wedge": ["Wedge"], "wedge15": ["Wedge_15"],
         "hexahedron": ["Hexahedron"], "hexahedron20": ["Hexahedron_20", "Hex_20"], "hexahedron27": ["Hexahedron_27", "Hex_27"]}
XCODE = {"vertex": 1, "line": 2, "triangle": 4, "quad": 5, "tetra": 6, "pyramid": 7, "wedge": 8, "hexahedron": 9, "line3": 0x22, "quad9": 0x23,
         "triangle6": 0x24, "quad8": 0x25, "tetra10": 0x26, "pyramid13": 0x27, "wedge15": 0x28, "hexahedron20": 0x30, "hexahedron27": 0x32}


def xdmf(d, root):
    import h5py

    m = d["m"]
    h5 = h5py.File(os.path.join(root, "data.h5"), "w")
    count = [0]

    def item(a, ref=None):
        if ref:
            return f'<DataItem Reference="XML">{ref}</DataItem>'
        i = count[0]
        count[0] += 1
        how = d["how"][i % len(d["how"])]
        if d["col"] and a.ndim == 1 and i > 1:
            a = a.reshape(-1, 1)
        kind = {"f": "Float", "i": "Int", "u": "UInt"}[a.dtype.kind]
        at = f'Dimensions="{" ".join(map(str, a.shape))}" Format="{how}"'
        if not (d["default"] and a.dtype == np.float32):
            at += f' {d["dtkey"]}="{kind}" Precision="{a.dtype.itemsize}"'
        if how == "XML":
            body = text(a) if not d["wrap"] else "\n" + "\n".join("   " + text(r) for r in a.reshape(len(a), -1)) + "\n  "
        elif how == "Binary":
            body = f"part{i}.bin"
            a.tofile(os.path.join(root, body))
        else:
            h5.create_dataset(f"Mesh/part{i}", data=a)
            body = "data.h5:" + ("/" if d["slash"] else "") + f"Mesh/part{i}"
            if d["wrap"]:
                body = "\n    " + body + "\n   "
        return f"<DataItem {at}>{body}</DataItem>"

    blocks = m["blocks"]
    if len(blocks) == 1:
        b = blocks[0]
        name = XNAME[b["t"]][d["alias"] % len(XNAME[b["t"]])]
        npe = ' NodesPerElement="%d"' % len(b["c"][0]) if b["t"] in ("vertex", "line") else ""
        data = np.array(b["c"], dtype=d["conn"])
    else:
        name, npe = "Mixed", ""
        data = np.array([x for b in blocks for c in b["c"] for x in [XCODE[b["t"]]] + ([len(c)] if b["t"] in ("vertex", "line") else []) + list(c)], dtype=d["conn"])
    if d["lower"]:
        name = name.lower()
    n = sum(len(b["c"]) for b in blocks)
    tk, gk, ak = ("Type", "Type", "Type") if d["newkeys"] else ("TopologyType", "GeometryType", "AttributeType")
    topo = f'<Topology {tk}="{name}" NumberOfElements="{n}"{npe}>{item(data)}</Topology>'
    gt = "XYZ" if m["dim"] == 3 else "XY"
    geo = "<Geometry" + ("" if d["nogeo"] else f' {gk}="{gt}"') + f">{item(absmesh.points_array(m))}</Geometry>"
    atts = []
    for kind, arrs in (("Node", m["pd"]), ("Cell", [dict(x, r=[t for r in x["r"] for t in r]) for x in m["cd"]])):
        for j, x in enumerate(arrs):
            at = {0: "Scalar", 1: "Scalar", 2: "Vector", 3: "Vector", 9: "Tensor"}[x["nc"]]
            ref = f"/Xdmf/Domain/Grid/Attribute[@Name='{arrs[0]['n']}'][@Center='Node']/DataItem" if d["twin"] and kind == "Node" and j == 1 else None
            atts.append(f'<Attribute Name="{x["n"]}" {ak}="{at}" Center="{kind}">{item(absmesh.data_rows(x["r"], x["nc"], x["dt"], m["prof"]), ref)}</Attribute>')
    if d["grid"]:
        atts.append(f'<Attribute Name="cycle" {ak}="Scalar" Center="Grid"><DataItem Dimensions="1" Format="XML" NumberType="Int">7</DataItem></Attribute>')
    parts = atts + [geo, topo] if d["first"] else [topo, geo] + atts
    h5.close()
    return ('<?xml version="1.0" ?>\n<!DOCTYPE Xdmf SYSTEM "Xdmf.dtd" []>\n' + f'<Xdmf Version="{d["ver"]}">\n<Domain>\n<Grid Name="Grid" GridType="Uniform">\n'
            + "\n".join(parts) + "\n</Grid>\n</Domain>\n</Xdmf>\n").encode()


def series(d, root, times):
    """a time series; the side files are put into root"""
    import h5py

    m = d["m"]
    h5 = h5py.File(os.path.join(root, "other.h5"), "w")
    count = [0]

    def item(a):
        i = count[0]
        count[0] += 1
        how = d["how"][i % len(d["how"])]
        kind = {"f": "Float", "i": "Int", "u": "UInt"}[a.dtype.kind]
        at = f'Dimensions="{" ".join(map(str, a.shape))}" Format="{how}"'
        if not (d["default"] and a.dtype == np.float32):
            at += f' {d["dtkey"]}="{kind}" Precision="{a.dtype.itemsize}"'
        if how == "XML":
            body = text(a) if not d["wrap"] else "\n" + "\n".join("   " + text(r) for r in a.reshape(len(a), -1)) + "\n  "
        elif how == "Binary":
            body = f"piece{i}.bin"
            a.tofile(os.path.join(root, body))
        else:
            h5.create_dataset(f"VisualisationVector/{i}", data=a)
            body = f"other.h5:/VisualisationVector/{i}"
            if d["wrap"]:
                body = "\n    " + body + "\n   "
        return f"<DataItem {at}>{body}</DataItem>"

    blocks = m["blocks"]
    n = sum(len(b["c"]) for b in blocks)
    tk, gk, ak = ("Type", "Type", "Type") if d["newkeys"] else ("TopologyType", "GeometryType", "AttributeType")

    def mesh():
        if len(blocks) == 1:
            b = blocks[0]
            name = XNAME[b["t"]][0]
            npe = ' NodesPerElement="%d"' % len(b["c"][0])
            data = np.array(b["c"], dtype="i8")
        else:
            name, npe = "Mixed", ""
            data = np.array([x for b in blocks for c in b["c"] for x in [XCODE[b["t"]]] + ([len(c)] if b["t"] in ("vertex", "line") else []) + list(c)], dtype="i8")
        if d["lower"]:
            name = name.lower()
        gt = "XYZ" if m["dim"] == 3 else "XY"
        return [f'<Topology {tk}="{name}" NumberOfElements="{n}"{npe}>{item(data)}</Topology>', f'<Geometry {gk}="{gt}">{item(absmesh.points_array(m))}</Geometry>']

    note = ["<!-- made by another program -->"] if d["note"] else []
    alone = ['<Grid Name="mesh" GridType="Uniform">'] + mesh() + ["</Grid>"] if d["place"] in ("before", "after") else []
    grids = ['<Grid Name="Series" GridType="Collection" CollectionType="Temporal">'] + note
    for k, s in enumerate(d["steps"]):
        geo = mesh() if k == 0 and d["place"] in ("first", "copy") or d["place"] == "each" else []
        if not geo:
            geo = ['<xi:include xpointer="xpointer(//Grid[@Name=&quot;Series&quot;]/Grid[1]/*[self::Topology or self::Geometry])" />']
        time = [f'<Time Value="{times[s["t"]]!r}" />'.replace("np.float64(", "").replace(")", "")]
        sm = s["m"]
        atts = []
        for kind, arrs in (("Node", sm["pd"]), ("Cell", [dict(x, r=[t for r in x["r"] for t in r]) for x in sm["cd"]])):
            for x in arrs:
                at = {0: "Scalar", 1: "Scalar", 2: "Vector", 3: "Vector", 6: "Tensor6", 9: "Tensor"}.get(x["nc"], "Matrix")
                q = absmesh.real(x["n"]).replace("&", "&amp;").replace("<", "&lt;").replace("\"", "&quot;")
                atts.append(f'<Attribute Name="{q}" {ak}="{at}" Center="{kind}">{item(absmesh.data_rows(x["r"], x["nc"], x["dt"], sm["prof"]))}</Attribute>')
        grids += [f'<Grid Name="step_{k}" GridType="Uniform">'] + geo + note + (atts + time if d["timelast"] else time + atts) + ["</Grid>"]
    grids.append("</Grid>")
    h5.close()
    return ('<?xml version="1.0"?>\n<!DOCTYPE Xdmf SYSTEM "Xdmf.dtd" []>\n' + f'<Xdmf Version="{d["ver"]}" xmlns:xi="https://www.w3.org/2001/XInclude">\n<Domain>\n'
            + "\n".join(alone * (d["place"] == "before") + grids + alone * (d["place"] == "after")) + "\n</Domain>\n</Xdmf>\n").encode()


PLYNAME = {"f8": ["float64", "double"], "f4": ["float32", "float"], "i4": ["int32", "int"], "u4": ["uint32", "uint"], "i2": ["int16", "short"],
           "u2": ["uint16", "ushort"], "u1": ["uint8", "uchar"], "i1": ["int8", "char"]}
PLYDT = {n: k for k, v in PLYNAME.items() for n in v}


def ply(d):
    m, prof = d["m"], d["m"]["prof"]
    e = ">" if d["enc"] == "big" else "<"
    out = bytearray()
    name = lambda dt: PLYNAME[dt][1 if d["old"] else 0]
    pts = absmesh.points_array(m)
    ct, it = PLYDT[d["count"]], PLYDT[d["index"]]
    cols = [("xyz"[i], m["pdt"], pts[:, i]) for i in range(3)]
    extra = [(x["n"], x["dt"], absmesh.data_rows(x["r"], 0, x["dt"], prof)) for x in m["pd"]]
    cols = {0: cols + extra, 1: extra + cols, 2: cols[:2] + extra + cols[2:], 3: cols + extra}[d["coord"]]
    cells = [c for b in m["blocks"] for c in b["c"]]
    face = [(d["name"], (ct, it), cells)]
    tex = [("texcoord", ("u1", "f4"), [[0.25 * i for i in range(2 * len(c))] for c in cells])]
    face = {"none": face, "before": tex + face, "after": face + tex}[d["tex"]]
    fextra = [(x["n"], x["dt"], absmesh.data_rows([t for r in x["r"] for t in r], 0, x["dt"], prof)) for x in m["cd"]]
    i = min(d["at"], len(fextra))
    face = fextra[:i] + face + fextra[i:]
    L = ["ply", "format " + {"ascii": "ascii", "little": "binary_little_endian", "big": "binary_big_endian"}[d["enc"]] + " 1.0"]
    if d["note"]:
        L += ["comment made by another program", "obj_info num_cols 512"]
    L += [f"element vertex {len(pts)}"] + [f"property {name(dt)} {n}" for n, dt, _ in cols] + [f"element face {len(cells)}"]
    L += [f"property list {name(dt[0])} {name(dt[1])} {n}" if isinstance(dt, tuple) else f"property {name(dt)} {n}" for n, dt, _ in face]
    out += ("\n".join(L + ["end_header"]) + "\n").encode()
    num = lambda v, dt: (repr(float(np.dtype(dt).type(v))) if dt[0] == "f" else str(int(v))) + " " if d["enc"] == "ascii" else np.array([v], e + dt).tobytes()

    def put(x):
        nonlocal out
        out += x.encode() if isinstance(x, str) else x

    for tab, n in ((cols, len(pts)), (face, len(cells))):
        for r in range(n):
            for _, dt, v in tab:
                if isinstance(dt, tuple):
                    put(num(len(v[r]), dt[0]))
                    for x in v[r]:
                        put(num(x, dt[1]))
                else:
                    put(num(v[r], dt))
            if d["enc"] == "ascii":
                put("\n")
    return bytes(out)


EXO = {
    "vertex": ["SPHERE", "sphere"], "line": ["BEAM", "BAR2", "beam2"], "triangle": ["TRI", "TRIANGLE", "tri3"],
    "quad": ["QUAD", "SHELL4", "quad4", "SHELL"], "tetra": ["TETRA", "TET4", "tetra4"], "hexahedron": ["HEX", "hex8", "HEXAHEDRON"],
    "wedge": ["WEDGE", "wedge"], "pyramid": ["PYRAMID", "pyramid"], "triangle6": ["TRI6"], "tetra10": ["TETRA10"], "quad8": ["QUAD8", "SHELL8"],
}


def exodus(d, root):
    import os
    import netCDF4

    m, prof = d["m"], d["m"]["prof"]
    pts = absmesh.points_array(m)
    path = os.path.join(root, "foreign.tmp")
    with netCDF4.Dataset(path, "w", format=d["model"]) as nc:
        nc.version = nc.api_version = np.float32(4.98)
        nc.floating_point_word_size = np.int32(8)
        nc.title = "made by another program"
        nc.createDimension("len_string", 33)
        nc.createDimension("len_name", 33)
        nc.createDimension("time_step", None)
        nc.createDimension("num_dim", pts.shape[1])
        nc.createDimension("num_nodes", len(pts))
        nc.createDimension("num_elem", sum(len(b["c"]) for b in m["blocks"]))
        nc.createDimension("num_el_blk", len(m["blocks"]))

        def names(key, dim, ns):
            nc.createDimension(dim, len(ns))
            v = nc.createVariable(key, "S1", (dim, "len_name"))
            for i, n in enumerate(ns):
                for j, c in enumerate(n.encode()):
                    v[i, j] = bytes([c])

        t = nc.createVariable("time_whole", "f8", ("time_step",))
        for s in range(d["steps"]):
            t[s] = 0.5 * s

        def put(key, dim, a):
            v = nc.createVariable(key, "f8", ("time_step", dim))
            for s in range(d["steps"]):
                v[s, :] = a + 1000.0 * s

        def coords():
            if d["coord"] == "coord":
                v = nc.createVariable("coord", "f8", ("num_dim", "num_nodes"))
                v[:] = pts.T
            else:
                for i in range(pts.shape[1]):
                    nc.createVariable("coord" + "xyz"[i], "f8", ("num_nodes",))[:] = pts[:, i]

        def cells():
            ids = nc.createVariable("eb_prop1", "i4", ("num_el_blk",))
            ids.setncattr("name", "ID")
            ids[:] = 10 * np.arange(1, len(m["blocks"]) + 1)
            for k, b in enumerate(m["blocks"]):
                nc.createDimension(f"num_el_in_blk{k + 1}", len(b["c"]))
                nc.createDimension(f"num_nod_per_el{k + 1}", len(b["c"][0]))
                v = nc.createVariable(f"connect{k + 1}", "i4", (f"num_el_in_blk{k + 1}", f"num_nod_per_el{k + 1}"))
                v.elem_type = EXO[b["t"]][d["spell"] % len(EXO[b["t"]])]
                v[:] = np.array(b["c"]) + 1

        def nodal():
            if m["pd"]:
                first, rest = [], []  # the parts of vectors are variables of their own
                for x in m["pd"]:
                    a = absmesh.data_rows(x["r"], x["nc"], x["dt"], prof)
                    parts = [(x["n"], a)] if x["nc"] == 0 else [(x["n"] + s, a[:, j]) for j, s in enumerate(("X", "Y", "Z") if x["nc"] == 3 else ("_R", "_Z"))]
                    first.append(parts[0])
                    (rest if d["mix"] else first).extend(parts[1:])
                cols = first + (rest[::-1] if d["turn"] % 2 else rest)
                names("name_nod_var", "num_nod_var", [n for n, _ in cols])
                for i, (_, a) in enumerate(cols):
                    put(f"vals_nod_var{i + 1}", "num_nodes", a)

        def elems():
            if m["cd"]:
                names("name_elem_var", "num_elem_var", [x["n"] for x in m["cd"]])
                todo = [(i, k) for i in range(len(m["cd"])) for k in range(len(m["blocks"]))]
                for i, k in todo[d["turn"] % len(todo):] + todo[: d["turn"] % len(todo)] if d["mix"] else todo:
                    x = m["cd"][i]
                    put(f"vals_elem_var{i + 1}eb{k + 1}", f"num_el_in_blk{k + 1}", absmesh.data_rows(x["r"][k], 0, x["dt"], prof))

        def sets():
            if m["ps"]:
                names("ns_names", "num_node_sets", [x["n"] for x in m["ps"]])
                for i, x in enumerate(m["ps"]):
                    nc.createDimension(f"num_nod_ns{i + 1}", len(x["m"]))
                    nc.createVariable(f"node_ns{i + 1}", "i4", (f"num_nod_ns{i + 1}",))[:] = np.array(x["m"]) + 1

        coords()
        todo = [cells, nodal, sets]
        r = d["turn"] % 3
        for f in todo[r:] + todo[:r]:
            f()
        elems()
    b = open(path, "rb").read()
    os.remove(path)
    return b


GMF = {"line": (5, 2), "triangle": (6, 3), "quad": (7, 4), "tetra": (8, 4), "wedge": (9, 6), "hexahedron": (10, 8), "pyramid": (49, 5)}


def meditb(d):
    m = d["m"]
    e = ">" if d["big"] else "<"
    pts = absmesh.points_array(m)
    it = e + ("i8" if d["ver"] == 4 else "i4")
    pt = e + ("i8" if d["ver"] >= 3 else "i4")
    ft = e + ("f4" if d["ver"] == 1 else "f8")
    n = lambda x, t: np.array([x], t).tobytes()
    out = bytearray(n(1, e + "i4") + n(d["ver"], e + "i4"))

    def section(code, body):
        nonlocal out
        end = len(out) + 4 + np.dtype(pt).itemsize + len(body)
        out += n(code, e + "i4") + n(end, pt) + body

    section(3, n(m["dim"], e + "i4"))
    ref = [x for x in m["pd"] if x["n"] == "medit:ref"]
    rows = b"".join(p.astype(ft).tobytes() + n(ref[0]["r"][i], it) for i, p in enumerate(pts))
    verts = (4, n(len(pts), it) + rows)
    lab = m["cd"][0]["r"]
    secs = [(GMF[b["t"]][0], n(len(b["c"]), it) + b"".join(np.array(c, it).tobytes() for c in ([*[x + 1 for x in c], lab[k][i]] for i, c in enumerate(b["c"]))))
            for k, b in enumerate(m["blocks"])]
    if d["corners"]:
        secs.insert(d["corners"] - 1, (13, n(2, it) + n(1, it) + n(2, it)))  # GmfCorners
    if d["ridges"]:
        secs.append((14, n(1, it) + n(1, it)))  # GmfRidges
    for s in ([verts] + secs if not d["late"] else secs + [verts]):
        section(*s)
    out += n(54, e + "i4") + (n(0, pt) if d["endpos"] else b"")
    return bytes(out)


TEC = {"line": "FELINESEG", "triangle": "FETRIANGLE", "quad": "FEQUADRILATERAL", "tetra": "FETETRAHEDRON", "hexahedron": "FEBRICK"}
TECOLD = {"triangle": "TRIANGLE", "quad": "QUADRILATERAL", "tetra": "TETRAHEDRON", "hexahedron": "BRICK"}


def tecplot(d):
    m, prof = d["m"], d["m"]["prof"]
    pts = absmesh.points_array(m)
    b = m["blocks"][0]
    ax = "xyz" if d["low"] else "XYZ"
    cols = [(ax[i], pts[:, i], False) for i in range(m["dim"])]
    cols += [(x["n"], absmesh.data_rows(x["r"], 0, x["dt"], prof), False) for x in m["pd"]]
    if d["pack"] == "BLOCK":
        ccols = [(x["n"], absmesh.data_rows(x["r"][0], 0, x["dt"], prof), True) for x in m["cd"]]
        cols = cols[: m["dim"]] + ccols + cols[m["dim"] :] if d["front"] else cols + ccols
    L = []
    if d["title"]:
        L += ['TITLE = "made by another program"']
    names = [f'"{n}"' for n, _, _ in cols] if d["quoted"] else [n for n, _, _ in cols]
    if d["vlines"] and d["quoted"]:
        L += ["VARIABLES = " + names[0]] + names[1:]
    else:
        L += [("VARIABLES" if not d["vlow"] else "variables") + " = " + (", " if d["comma"] else " ").join(names)]
    eq = " = " if d["space"] else "="
    n, e = ("NODES", "ELEMENTS") if d["long"] else ("N", "E")
    z = ['T="zone of cells, N=3"'] if d["zt"] else []
    z += [f"{n}{eq}{len(pts)}", f"{e}{eq}{len(b['c'])}"]
    if d["old"] and b["t"] in TECOLD:
        z += [f"F{eq}FE{d['pack']}", f"ET{eq}{TECOLD[b['t']]}"]
    else:
        z += [f"DATAPACKING{eq}{d['pack']}", f"ZONETYPE{eq}{TEC[b['t']]}"]
    nn = sum(not c for _, _, c in cols)
    if d["pack"] == "BLOCK" and nn < len(cols):
        if d["front"]:
            at = [i + 1 for i, c in enumerate(cols) if c[2]]
            if d["loc"] == "range":
                loc = f"([{at[0]}-{at[-1]}]{eq}CELLCENTERED)"
            else:
                loc = "(" + ", ".join(f"[{i}]{eq}CELLCENTERED" for i in at) + ")"
            z += [f"VARLOCATION{eq}{loc}"]
        elif d["nv"]:
            z += [f"NV{eq}{nn}"]
        else:
            if d["loc"] == "range":
                loc = f"([{nn + 1}-{len(cols)}]{eq}CELLCENTERED)"
            elif d["loc"] == "both":
                loc = f"([1-{nn}]{eq}NODAL, [{nn + 1}-{len(cols)}]{eq}CELLCENTERED)"
            else:
                loc = "(" + ", ".join(f"[{i + 1}]{eq}CELLCENTERED" for i in range(nn, len(cols))) + ")"
            z += [f"VARLOCATION{eq}{loc}"]
    if d["zlines"]:
        L += ["ZONE " + z[0]] + [", " + x for x in z[1:]]
    else:
        L += ["ZONE " + (", " if d["comma"] else " ").join(z)]
    num = lambda v: (f"{v:+.17E}" if d["plus"] else repr(float(v)))
    w = d["width"]
    if d["pack"] == "POINT":
        for i in range(len(pts)):
            L += [" ".join(num(c[1][i]) for c in cols)]
    else:
        for c in cols:
            s = [num(v) for v in c[1]]
            L += [" ".join(s[i : i + w]) for i in range(0, len(s), w)]
    if d["note"]:
        L.insert(1, "# a remark")
        L.append("# connectivity")
    for c in b["c"]:
        L += [" " * (w % 3) + " ".join(str(x + 1) for x in c)]
    return ("\n".join(L) + "\n").encode()


class Bulk:
    """lines of a Nastran file"""

    def __init__(self, d):
        import random

        self.rnd = random.Random(d["seed"])
        self.d = d
        self.out = []
        self.n = 0

    def real(self, v, width):
        d = self.d["real"]
        for p in range(width, 0, -1):
            s = f"{v:.{p}E}"
            mant, ex = s.split("E")
            s = mant + {"E": "E", "bare": "", "D": "D"}[d] + ("+" if int(ex) >= 0 else "-") + str(abs(int(ex)))
            if len(s) <= width:
                return s

    def card(self, name, fields, style):
        """fields: strings ("" for blank)"""
        self.n += 1
        tag = f"C{self.n % 1000}"
        cont = self.d["cont"]
        if style == "free":
            rows = [fields[i : i + 8] for i in range(0, len(fields), 8)]
            for k, r in enumerate(rows):
                last = k == len(rows) - 1
                head = name if k == 0 else "+" + (tag if cont == "named" else "")
                self.out.append(",".join([head] + r + ([] if last else ["+" + (tag if cont == "named" else "")])))
            return
        per, w, star = (8, 8, "") if style == "small" else (4, 16, "*")
        rows = [fields[i : i + per] for i in range(0, len(fields), per)]
        for k, r in enumerate(rows):
            last = k == len(rows) - 1
            mark = "+" if style == "small" else "*"
            auto = cont == "auto" and style == "small"
            head = name + star if k == 0 else (" " if auto else mark + (tag if cont == "named" else ""))
            line = head.ljust(8) + "".join(x.rjust(w) if self.n % 2 else x.ljust(w) for x in r)
            if not last:
                line = line.ljust(72)
                if auto:
                    line += " " * 8
                elif cont == "named":
                    line += mark + tag
            self.out.append(line if auto and not last else line.rstrip())


NAS = {
    "line": ["CROD", "CBAR", "CBEAM", "CBUSH"], "triangle": ["CTRIA3", "CTRIAR"], "quad": ["CQUAD4", "CQUADR", "CSHEAR"], "tetra": ["CTETRA"], "pyramid": ["CPYRA", "CPYRAM"],
    "wedge": ["CPENTA"], "hexahedron": ["CHEXA"], "triangle6": ["CTRIA6"], "quad8": ["CQUAD8"], "tetra10": ["CTETRA"], "pyramid13": ["CPYRA"], "wedge15": ["CPENTA"],
    "hexahedron20": ["CHEXA"],
}


def nastran(d):
    m = d["m"]
    pts = absmesh.points_array(m)
    o = Bulk(d)
    st = d["step"]
    pr = m["pd"][0]["r"] if m["pd"] else [0] * len(pts)
    cr = m["cd"][0]["r"] if m["cd"] else [[0] * len(b["c"]) for b in m["blocks"]]
    nid = [10 + st * i for i in range(len(pts))]
    ref = lambda v: str(v) if v else ""

    def nodes():
        for i, p in enumerate(pts):
            style = o.rnd.choice(["large", "free"])
            f = [str(nid[i]), ref(pr[i])] + [o.real(v, 16) for v in p] + (["4"] if d["extra"] and i % 3 == 0 else [])
            o.card("GRID", f, style)
            if d["note"] and i % 5 == 2:
                o.out.append("$ GRID   nothing")

    def elements():
        e = 1000
        for b, blk in enumerate(m["blocks"]):
            names = NAS[blk["t"]]
            for i, c in enumerate(blk["c"]):
                e += st
                name = names[(d["spell"] + i) % len(names)]
                f = [str(e), ref(cr[b][i])] + [str(nid[x]) for x in c]
                if name in ("CBAR", "CBEAM", "CBUSH"):
                    f += ["1.0", "0.0", "0.0"] if d["extra"] else [str(nid[0])]
                elif d["extra"] and name in ("CTRIA3", "CQUAD4", "CTRIAR", "CQUADR", "CTRIA6"):
                    f += ["30.0"]
                elif d["extra"] and name == "CQUAD8":
                    f += ["1.5", "1.5", "1.5", "1.5", "30.0"]
                o.card(name, f, o.rnd.choice(["small", "large", "free"]))
                if d["note"] and i % 4 == 1:
                    o.out.append(["$", "$ a remark, with a comma", "", "//"][i % 3])

    head = ["SOL 101", "CEND", "TITLE = made by another program", "$ GRID, 1", "BEGIN BULK"]
    for f in (elements, nodes) if d["elfirst"] else (nodes, elements):
        f()
        if d["other"]:
            o.out += ["PSHELL         1       1    0.25       1", "MAT1*                  1         2.1E+11", "*                    0.3          7800.0", "PARAM,POST,-1"]
    return ("\n".join(head + o.out + ["ENDDATA"]) + "\n").encode()


ABQ = {
    "line": ["T3D2", "B31", "T2D2"], "line3": ["B32", "T3D3"], "triangle": ["S3", "CPS3", "R3D3", "STRI3"], "quad": ["S4R", "CPS4", "CAX4P"], "quad8": ["S8R", "S8R5"],
    "triangle6": ["STRI65", "CPE6"], "tetra": ["C3D4", "C3D4H"], "tetra10": ["C3D10", "C3D10M"], "wedge": ["C3D6"], "wedge15": ["C3D15"], "hexahedron": ["C3D8", "C3D8R", "C3D8I"],
    "hexahedron20": ["C3D20R", "C3D20"],
}


def abaqus(d):
    m = d["m"]
    pts = absmesh.points_array(m)
    K = (lambda s: s.lower()) if d["low"] else (lambda s: s)
    sep = ", " if d["sp"] else ","
    eq = " = " if d["sp"] and d["low"] else "="
    nid = [7 + d["pstep"] * i for i in range(len(pts))]
    L = ["*" + K("HEADING"), "made by another program"]
    rem = (lambda: L.append("** a remark, 1, 2")) if d["note"] else (lambda: None)
    half = len(pts) // 2 if d["split"] else len(pts)
    for lo, hi in ((0, half), (half, len(pts))):
        if lo < hi:
            L.append("*" + K("NODE") + (sep + K("NSET") + eq + d["nset"] if d["nset"] else ""))
            for i in range(lo, hi):
                L.append(sep.join([str(nid[i])] + [repr(float(x)) for x in pts[i]]) + ("," if d["sp"] and i % 2 else ""))
                if i == lo + 1:
                    rem()
    eid, e = [], 100
    for b, blk in enumerate(m["blocks"]):
        t = ABQ[blk["t"]]
        L.append("*" + K("ELEMENT") + sep + K("TYPE") + eq + t[d["spell"] % len(t)] + (sep + K("ELSET") + eq + d["eset"][b] if d["eset"][b] else ""))
        for i, c in enumerate(blk["c"]):
            e += d["estep"]
            eid.append(e)
            w = [str(e)] + [str(nid[x]) for x in c]
            if len(w) > 9 or (len(w) > 6 and i % 2):
                L += [sep.join(w[: len(w) // 2]) + ",", sep.join(w[len(w) // 2 :])]
            else:
                L.append(sep.join(w))
            if i == 1:
                rem()
        if d["other"]:
            L += ["*" + K("SOLID SECTION") + sep + K("ELSET") + eq + "alpha" + sep + K("MATERIAL") + eq + "steel", "1.0,"]
    for s in d["stats"]:
        ids, step = (nid, d["pstep"]) if s["k"] == "n" else (eid, d["estep"])
        word = "NSET" if s["k"] == "n" else "ELSET"
        L.append("*" + K(word) + sep + K(word) + eq + s["n"] + (sep + K("GENERATE") if s["gen"] else "") + (sep + K("INTERNAL") if d["other"] else ""))
        for a, cnt, inc in s["gen"]:
            w = [str(ids[a]), str(ids[a + inc * (cnt - 1)])]
            L.append(sep.join(w if inc * step == 1 and d["low"] else [*w, str(inc * step)]))
        nums = [str(ids[x]) for x in s["ids"]]
        if s["mixed"]:
            nums, refs = nums + list(s["refs"]), []
        else:
            refs = list(s["refs"])
        for row in (nums, refs):
            L += [sep.join(row[i : i + s["width"]]) + ("," if d["sp"] else "") for i in range(0, len(row), s["width"])]
        rem()
    L += ["*" + K("STEP"), "*" + K("END STEP")]
    return ("\n".join(L) + "\n").encode()


GM = {"vertex": 15, "line": 1, "triangle": 2, "quad": 3, "tetra": 4, "hexahedron": 5, "wedge": 6, "pyramid": 7, "line3": 8, "triangle6": 9, "quad9": 10}
NOT_GIVEN = absmesh.BIG + 9999999


def gmsh(d):
    m, prof, bin_ = d["m"], d["m"]["prof"], d["bin"]
    pts = absmesh.points_array(m)
    nid = d["nid"]
    st = f"u{d['size']}"
    out = bytearray()

    def line(s):
        nonlocal out
        out += (s + "\n").encode()

    def nums(a, dt, end=True):
        """numbers of one kind, on one line if text"""
        nonlocal out
        if bin_:
            out += np.asarray(a, dt).tobytes()
        else:
            out += " ".join(repr(float(x)) if dt[0] == "f" else str(int(x)) for x in np.ravel(a)).encode() + (b"\n" if end else b" ")

    def close(name):
        if bin_ and d["sep"] and not name.endswith("Data"):
            line("")
        elif bin_:
            line("")
        line(f"$End{name}")

    def names():
        if m["fd"]:
            line("$PhysicalNames")
            line(str(len(m["fd"])))
            for x in m["fd"]:
                line(f'{x["v"][1]} {x["v"][0]} "{x["n"]}"')
            line("$EndPhysicalNames")

    ncell = sum(len(b["c"]) for b in m["blocks"])
    ids = list(range(5, 5 + ncell)) if d["eorder"] == 0 else list(range(5 + ncell, 5, -1)) if d["eorder"] == 1 else [4 + (7 * i) % 1009 for i in range(ncell)]
    cell_ids = []
    for b in m["blocks"]:
        cell_ids.append(ids[: len(b["c"])])
        ids = ids[len(b["c"]) :]

    def data(word, key, arr, tags):
        rows = arr["r"] if word == "NodeData" else [x for r in arr["r"] for x in r]
        nc = max(arr["nc"], 1)
        vals = np.reshape(absmesh.data_rows(rows, arr["nc"], "f8", prof), (len(rows), nc))
        keep = [i for i in range(len(rows)) if rows[i] != NOT_GIVEN]
        keep = keep[d["turn"] :] + keep[: d["turn"]]
        line(f"${word}")
        line(str(d["strs"]))
        line('"' + arr["n"] + '"')
        if d["strs"] == 2:
            line('"scheme"')
        line(str(d["reals"]))
        for i in range(d["reals"]):
            line(f"{0.5 * i}")
        line(str(d["ints"]))
        for x in [0, nc, len(keep), 0][: d["ints"]]:
            line(str(x))
        for i in keep:
            nums([tags[i]], "i4", end=False)
            nums(vals[i], "f8")
        close(word)

    line("$MeshFormat")
    line(f'{"4.1" if d["v4"] else "2.2"} {int(bin_)} {d["size"] if d["v4"] else 8}')
    if bin_:
        out += np.array([1], "i4").tobytes()
        line("")
    line("$EndMeshFormat")
    if d["note"]:
        line("$Comments")
        line("made by another program")
        line("$EndComments")
    if not d["late"] or d["v4"]:
        names()
    dims = {"vertex": 0, "line": 1, "line3": 1, "triangle": 2, "quad": 2, "triangle6": 2, "quad9": 2}
    geo = [10 + 3 * (b + 1) for b in range(len(m["blocks"]))]
    if d["v4"]:
        codes = [x["r"] for x in m["pd"] if x["n"] == "gmsh:dim_tags"][0]
        if d["ent"]:
            E = {k: [] for k in range(4)}
            for b, blk in enumerate(m["blocks"]):
                E[dims.get(blk["t"], 3)].append((geo[b], d["groups"][b]))
            for c in sorted(set(codes)):
                E[c // 1000].append((c % 1000, []))
            line("$Entities")
            nums([len(E[k]) for k in range(4)], st)
            for k in range(4):
                for t, g in E[k]:
                    nums([t], "i4", False)
                    nums([0.0] * (3 if k == 0 else 6), "f8", False)
                    nums([len(g)], st, False)
                    nums(g, "i4", k == 0)
                    if k:
                        nums([d["brep"]], st, False)
                        nums([1, -2][: d["brep"]], "i4")
            close("Entities")
        line("$Nodes")
        runs = []
        for i, c in enumerate(codes):
            if not runs or runs[-1][0] != c:
                runs.append((c, []))
            runs[-1][1].append(i)
        nums([len(runs), len(pts), min(nid), max(nid)], st)
        for c, mem in runs:
            nums([c // 1000, c % 1000, 0], "i4", False)
            nums([len(mem)], st)
            if bin_:
                nums([nid[i] for i in mem], st)
                nums(pts[mem], "f8")
            else:
                for i in mem:
                    nums([nid[i]], st)
                for i in mem:
                    nums(pts[i], "f8")
        close("Nodes")
        line("$Elements")
        allid = [x for c in cell_ids for x in c]
        nums([len(m["blocks"]), ncell, min(allid), max(allid)], st)
        for b, blk in enumerate(m["blocks"]):
            nums([dims.get(blk["t"], 3), geo[b], GM[blk["t"]]], "i4", False)
            nums([len(blk["c"])], st)
            for i, c in enumerate(blk["c"]):
                nums([cell_ids[b][i]] + [nid[x] for x in c], st)
        close("Elements")
    else:
        line("$Nodes")
        line(str(len(pts)))
        for i, p in enumerate(pts):
            nums([nid[i]], "i4", False)
            nums(p, "f8")
        close("Nodes")
        line("$Elements")
        line(str(ncell))
        lab = {x["n"]: x["r"] for x in m["cd"]}
        for b, blk in enumerate(m["blocks"]):
            nt = d["nt"][b]
            step = 1 if d["sep"] else len(blk["c"])
            for i, c in enumerate(blk["c"]):
                tags = [lab["gmsh:physical"][b][i], lab["gmsh:geometrical"][b][i], 1, 2][:nt] if nt else []
                if bin_:
                    if i % step == 0:
                        nums([GM[blk["t"]], min(step, len(blk["c"]) - i), nt], "i4")
                    nums([cell_ids[b][i]] + tags + [nid[x] for x in c], "i4")
                else:
                    nums([cell_ids[b][i], GM[blk["t"]], nt] + tags + [nid[x] for x in c], "i4")
        close("Elements")
        if d["late"]:
            names()
    for x in m["pd"]:
        if x["n"] != "gmsh:dim_tags":
            data("NodeData", "pd", x, nid)
    allid = [x for c in cell_ids for x in c]
    for x in m["cd"]:
        if not x["n"].startswith("gmsh:"):
            data("ElementData", "cd", x, allid)
    return bytes(out)


MED = {"vertex": "PO1", "line": "SE2", "line3": "SE3", "triangle": "TR3", "triangle6": "TR6", "quad": "QU4", "quad8": "QU8", "tetra": "TE4",
       "tetra10": "T10", "hexahedron": "HE8", "hexahedron20": "H20", "pyramid": "PY5", "wedge": "PE6", "wedge15": "P15"}


def med(d, root):
    import os
    import h5py

    m, prof = d["m"], d["m"]["prof"]
    pts = absmesh.points_array(m)
    it = "i4" if d["i4"] else "i8"
    path = os.path.join(root, "foreign.tmp")
    none = np.bytes_("MED_NO_PROFILE_INTERNAL")
    gone = absmesh.SPECIAL + 9999
    with h5py.File(path, "w") as f:
        g = f.create_group("INFOS_GENERALES")
        for k, v in (("MAJ", 4), ("MIN", 0), ("REL", 0)):
            g.attrs[k] = v
        g = f.create_group("ENS_MAA/Mesh_1")
        g.attrs["DIM"] = g.attrs["ESP"] = pts.shape[1]
        g.attrs["NOM"] = np.bytes_("".join(f"{x:<16}" for x in "XYZ"[: pts.shape[1]]))
        st = g if d["flat"] else g.create_group("-0000000000000000001-0000000000000000001")

        def put(where, name, a):
            x = where.create_dataset(name, data=a)
            x.attrs["CGT"] = 1
            return x

        noe = st.create_group("NOE")
        put(noe, "COO", pts.flatten(order="F")).attrs["NBR"] = len(pts)
        put(noe, "NUM", np.arange(1, len(pts) + 1, dtype=it)).attrs["NBR"] = len(pts)
        tags = {x["n"]: x["r"] for x in m["pd"]}
        if d["fp"]:
            put(noe, "FAM", np.array(tags["point_tags"], dtype=it)).attrs["NBR"] = len(pts)
        mai = st.create_group("MAI")
        ctags = {x["n"]: x["r"] for x in m["cd"]}
        for b, has, k in zip(m["blocks"], d["fc"], range(len(m["blocks"]))):
            w = mai.create_group(MED[b["t"]])
            put(w, "NOD", (np.array(b["c"], dtype=it) + 1).flatten(order="F")).attrs["NBR"] = len(b["c"])
            if has:
                put(w, "FAM", np.array(ctags["cell_tags"][k], dtype=it)).attrs["NBR"] = len(b["c"])
        fas = (st.create_group("FAS") if d["infas"] else f.create_group("FAS/Mesh_1"))
        fas.create_group("FAMILLE_ZERO").attrs["NUM"] = 0
        for key, fams in (("NOEUD", m["mt"]["p"]), ("ELEME", m["mt"]["c"])):
            if not fams and not d["empty"]:
                continue
            w = fas.create_group(key)
            for x in fams:
                y = w.create_group(f"FAM_{x['i']}")
                y.attrs["NUM"] = x["i"]
                if not x["n"]:
                    continue
                z = y.create_group("GRO")
                z.attrs["NBR"] = len(x["n"])
                a = np.zeros((len(x["n"]), 80), dtype=np.int8)
                for i, s in enumerate(x["n"]):
                    a[i, : len(s)] = np.frombuffer(s.encode(), dtype=np.int8)
                q = z.create_dataset("NOM", (len(x["n"]),), dtype="80int8")
                for i in range(len(x["n"])):
                    q[i] = a[i]
        if d["fields"]:
            cha = f.create_group("CHA")
            pf = {}

            def support(where, rows, nc, name):
                keep = [i for i, t in enumerate(rows) if t != gone]
                if not keep:
                    return
                w = where.create_group(name)
                a = absmesh.data_rows([rows[i] for i in keep], nc, "f8", prof).reshape(len(keep), -1)
                if len(keep) == len(rows):
                    p = none
                else:
                    i = pf.setdefault(tuple(keep), len(pf))
                    p = np.bytes_(f"PROFILE_{i}")
                w.attrs["PFL"] = p
                w.attrs["GAU"] = np.bytes_("")
                w = w.create_group(p)
                w.attrs["NBR"], w.attrs["NGA"], w.attrs["GAU"] = len(rows), 1, np.bytes_("")
                w.create_dataset("CO", data=a.flatten(order="F"))

            for x in d["fields"]:
                w = cha.create_group(x["n"])
                w.attrs["NOM"] = np.bytes_("".join(f"V{i:<15}" for i in range(max(x["nc"], 1))))
                w.attrs["NCO"] = max(x["nc"], 1)
                steps = list(range(x["t"]))
                for s in steps[::-1] if d["i4"] else steps:
                    q = w.create_group(f"{s + 1:020d}{-1:020d}")
                    q.attrs["PDT"] = [0.0, 0.5, 1.25][s]
                    q.attrs["NDT"] = s + 1
                    n = x["n"] if x["t"] == 1 else f"{x['n']}[{s}] - {[0.0, 0.5, 1.25][s]:g}"
                    if "p" in x["on"]:
                        support(q, tags[n], x["nc"], "NOE")
                    if "c" in x["on"]:
                        for b, r in zip(m["blocks"], ctags[n]):
                            support(q, r, x["nc"], "MAI." + MED[b["t"]])
            if pf:
                g = f.create_group("PROFILS")
                for keep, i in pf.items():
                    w = g.create_group(f"PROFILE_{i}")
                    w.attrs["NBR"] = len(keep)
                    w.create_dataset("PFL", data=np.array(keep, dtype=it) + 1)
    b = open(path, "rb").read()
    os.remove(path)
    return b


FLAC = {"triangle": ("T3", [0, 1, 2]), "quad": ("Q4", [0, 1, 2, 3]), "tetra": ("T4", [0, 1, 2, 3]), "pyramid": ("P5", [0, 1, 3, 4, 2]),
        "wedge": ("W6", [0, 1, 3, 2, 4, 5]), "hexahedron": ("B8", [0, 1, 3, 4, 2, 7, 5, 6])}


def flac3d(d):
    import struct

    m = d["m"]
    pts = absmesh.points_array(m)
    pid = [d["from"] + d["step"] * i for i in range(len(pts))]
    if d["turn"]:
        pid = pid[::-1]
    cells = []  # (is zone, id, code, nodes)
    count = {True: 0, False: 0}
    for b in m["blocks"]:
        z = b["t"] not in ("triangle", "quad")
        code, order = FLAC[b["t"]]
        for c in b["c"]:
            count[z] += 1
            n = [pid[c[i]] for i in order]
            if code == "B8" and n[6] == n[7]:
                cells.append([z, 0, "B7", n[:7]])
            else:
                cells.append([z, 0, code, n])
    left = dict(count)
    for c in cells:  # numbers of their own, upwards or downwards
        z = c[0]
        j = left[z] if d["turn"] else count[z] - left[z] + 1
        c[1] = d["from"] - 1 + d["step"] * j
        left[z] -= 1
    if d["bin"]:
        o = struct.pack("<2I", 1375135718, 3) + struct.pack("<I", len(pts))
        for i, p in zip(pid, pts):
            o += struct.pack("<I3d", i, *p)
        for z in (True, False):
            own = [c for c in cells if c[0] == z]
            o += struct.pack("<I", len(own))
            for c in own:
                o += struct.pack(f"<2I{len(c[3])}I", c[1], len(c[3]), *c[3])
            gs = [g for g in m["fs"] if g["z"] == z]
            o += struct.pack("<I", len(gs))
            for g in gs:
                o += struct.pack("<H", len(g["name"])) + g["name"].encode() + struct.pack("<H", len(g["slot"])) + g["slot"].encode()
                o += struct.pack(f"<I{len(g['s'])}I", len(g["s"]), *[cells[x][1] for x in g["s"]])
        return o
    out = ["* FLAC3D grid produced by another program"] if d["note"] else []
    out += [f"G {i} " + "   ".join(repr(float(x)) for x in p) for i, p in zip(pid, pts)]
    if d["note"]:
        out += ["", "* ZONES"]
    order = cells if d["mixed"] else [c for c in cells if c[0]] + [c for c in cells if not c[0]]
    out += [f"{'Z' if c[0] else 'F'} {c[2]} {c[1]} " + " ".join(map(str, c[3])) for c in order]
    for g in m["fs"]:
        q = "'\""[d["quote"]]
        out.append(f"{'ZGROUP' if g['z'] else 'FGROUP'} {q}{g['name']}{q} SLOT {g['slot']}")
        ids = [str(cells[x][1]) for x in g["s"]]
        out += [" ".join(ids[i:i + d["wide"]]) for i in range(0, len(ids), d["wide"])]
    return ("\n".join(out) + "\n").encode()


SU2 = {"line": 3, "triangle": 5, "quad": 9, "tetra": 10, "hexahedron": 12, "wedge": 13, "pyramid": 14}


def su2(d):
    m = d["m"]
    pts = absmesh.points_array(m)
    note = (lambda s: ["% " + s, ""]) if d["note"] else (lambda s: [])

    def rows(bs, col):
        todo = [[(b["t"], c) for c in b["c"]] for b in bs]
        out = []
        if d["mix"]:  # the types take turns
            while any(todo):
                for t in todo:
                    if t:
                        out.append(t.pop(0))
        else:
            out = sum(todo, [])
        return [f"{SU2[t]} " + " ".join(map(str, c)) + (f" {i}" if col else "") for i, (t, c) in enumerate(out)]

    inner = rows(m["blocks"][: d["inner"]], d["ecol"])
    elem = note("elements") + [f"NELEM= {len(inner)}"] + inner
    np_ = f"NPOIN= {len(pts)}" + (f" {len(pts)}" if d["two"] else "")
    poin = note("points") + [np_] + [text(p) + "".join(f" {i}" for _ in range(d["pcol"])) for i, p in enumerate(pts)]
    mark = note("boundaries") + [f"NMARK= {len(d['marks'])}"]
    for q in d["marks"]:
        own = rows(m["blocks"][q["first"] - 1: q["first"] - 1 + q["n"]], d["bcol"])
        mark += [f"MARKER_TAG= {q['tag']}", f"MARKER_ELEMS= {len(own)}"] + own
    parts = [[elem, poin, mark], [poin, elem, mark], [poin, mark, elem], [elem, mark, poin]][d["order"]]
    return ("\n".join(note("made by another program") + [f"NDIME= {m['dim']}"] + sum(parts, [])) + "\n").encode()


def tetgen(d, root):
    m = d["m"]
    pts = absmesh.points_array(m)
    sp = "  " if d["wide"] else " "
    cols = {x["n"]: absmesh.data_rows(x["r"], 0, x["dt"], m["prof"]) for x in m["pd"]}
    attrs = [v for n, v in cols.items() if n != "tetgen:ref"]
    ref = [v for n, v in cols.items() if n == "tetgen:ref"]
    node = [f"{len(pts)}{sp}3{sp}{len(attrs)}{sp}{len(ref)}"]
    node += [sp.join([str(i + d["base"]), *text(p).split(), *[repr(float(a[i])) for a in attrs], *[str(int(a[i])) for a in ref]]) for i, p in enumerate(pts)]
    c = m["blocks"][0]["c"]
    ca = [absmesh.data_rows(x["r"][0], 0, x["dt"], m["prof"]) for x in m["cd"]]
    ele = [f"{len(c)}{sp}4{sp}{len(ca)}"]
    ele += [sp.join([str(i + d["ebase"]), *[str(x + d["base"]) for x in q], *[str(a[i]) for a in ca]]) for i, q in enumerate(c)]
    for t in (node, ele):
        if d["note"] & 1:
            t.insert(0, "# a comment")
        if d["note"] & 2:
            t.append("# Generated by tetgen -pq1.4 in.poly")
    a, b = ("\n".join(t) + "\n" for t in (node, ele))
    if d["f"].endswith(".node"):
        a, b = b, a
    with open(os.path.join(root, "x.ele" if d["f"].endswith(".node") else "x.node"), "w") as f:
        f.write(a)
    return b.encode()


def stl(d):
    m = d["m"]
    pts = absmesh.points_array(m)
    c = np.array(m["blocks"][0]["c"], dtype=int).reshape(-1, 3)
    out = d["head"].encode().ljust(80, b" " if d["zero"] else b"\0") + np.array([len(c)], "<u4").tobytes()
    for i, t in enumerate(c):
        v = pts[t].astype("<f4")
        n = np.cross(v[1] - v[0], v[2] - v[0])
        n = n / (np.linalg.norm(n) or 1)
        out += (np.zeros(3) if d["zero"] else n).astype("<f4").tobytes() + v.tobytes() + np.array([d["attr"] if i % 2 == 0 else 0], "<u2").tobytes()
    return out


def obj(d):
    m = d["m"]
    pts = absmesh.points_array(m)
    out = ["# made by another program", "mtllib x.mtl", "o thing"] if d["note"] else []
    done = 0

    def vertices(n):
        nonlocal done
        while done < n:
            out.append("v " + text(pts[done]) + (" 1.0" if d["w"] else ""))
            done += 1

    if not d["inter"]:
        vertices(len(pts))
    out += [f"vt {0.125 * i} {0.5 - i}" for i in range(d["nt"])]
    out += [f"vn 0.0 {i}.5 1.0" for i in range(d["nn"])]
    g = 0
    for b, times in zip(m["blocks"], d["gs"]):
        for _ in range(times):
            g += 1
            out.append(f"g part{g}")
        if d["note"]:
            out += ["usemtl steel", "s off", ""]
        for c in b["c"]:
            vertices(max(c) + 1)
            items = []
            for j, x in enumerate(c):
                s = str(x - done) if d["neg"] else str(x + 1)
                t = str(1 + j % d["nt"]) if d["nt"] and d["refs"] & 1 else ""
                n = str(1 + j % d["nn"]) if d["nn"] and d["refs"] & 2 else ""
                items.append(s + (f"/{t}/{n}" if n else f"/{t}" if t else ""))
            out.append("f " + " ".join(items))
    vertices(len(pts))
    return ("\n".join(out) + "\n").encode()


ANSYS = {"triangle": 1, "tetra": 2, "quad": 3, "hexahedron": 4, "pyramid": 5, "wedge": 6}


def ansys(d):
    m = d["m"]
    pts = absmesh.points_array(m)
    enc = d["enc"]
    out = bytearray()

    def put(head, rows, dt):
        """a section: its head, then its body in parentheses"""
        nonlocal out
        out += f"({enc}{head}".encode()
        out += [b"(\n", b"\n(\n", b" (\n", b"\n  (\n"][d["own"]] if enc == "" else [b"(\n", b"\n(", b" (\n", b"\n  ("][d["own"]]
        if enc == "":
            for r in rows:
                out += (" ".join(repr(float(x)) if dt == "f" else f"{int(x):x}" for x in r) + "\n").encode()
        else:
            out += np.array(rows, ("<f" if dt == "f" else "<i") + ("4" if enc == "20" else "8")).tobytes() + b"\n"
        out += b"))\n"
        if enc:
            out[-3:] = f")\nEnd of Binary Section   {enc}{head.split()[0]})\n".encode()

    if d["note"]:
        out += b'(0 "made by (another) program")\n(1 "Fluent 6")\n\n'
    out += f"(2 {m['dim']})\n".encode()
    f0 = d["from"]
    nf = sum(len(b["c"]) for b in m["blocks"])
    if d["decl"]:
        out += f"(10 (0 {f0:x} {f0 + len(pts) - 1:x} 1 {m['dim']}))\n(12 (0 1 {nf:x} 0))\n(13 (0 1 {nf:x} 0))\n".encode()

    def nodes():
        z = np.array_split(np.arange(len(pts)), d["zones"])
        for i, idx in enumerate(z):
            put(f"10 ({i + 1:x} {f0 + idx[0]:x} {f0 + idx[-1]:x} 1 {m['dim']})", pts[idx], "f")

    def cells():
        nonlocal out
        blocks = list(m["blocks"])
        at = 1
        for i, p in enumerate(d["parts"]):
            own, blocks = blocks[: p["n"]], blocks[p["n"]:]
            n = sum(len(b["c"]) for b in own)
            rng = f"{i + 9:x} {at:x} {at + n - 1:x}"
            at += n
            ids = lambda c: [x + f0 for x in c]
            if p["k"] == "cells":
                put(f"12 ({rng} 1 {ANSYS[own[0]['t']]})", [ids(c) for c in own[0]["c"]], "i")
            elif p["k"] == "faces":
                put(f"13 ({rng} 3 {len(own[0]['c'][0])})", [ids(c) + [1, 0] for c in own[0]["c"]], "i")
            else:
                todo, rows = [list(b["c"]) for b in own], []
                while any(todo):
                    for t in todo:
                        if t:
                            c = t.pop(0)
                            rows.append([len(c)] + ids(c) + [1, 0])
                put(f"13 ({rng} 3 0)", rows, "i")
            if d["dead"]:
                out += f"(12 ({i + 60:x} 1 3 0 0))\n".encode()

    for f in (cells, nodes) if d["late"] else (nodes, cells):
        f()
    if d["note"]:
        out += b"(39 (9 wall wall-1)())\n(45 (2 fluid solid)())\n"
    return bytes(out)


MAKE = {"ansys": ansys, "su2": su2, "tetgen": tetgen, "stl": stl, "obj": obj, "gmsh": gmsh, "flac3d": flac3d, "med": med, "nastran": nastran, "abaqus": abaqus, "exodus": exodus, "meditb": meditb, "tecplot": tecplot, "vtk": vtk, "ply": ply, "xdmf": xdmf, "vtu": lambda d: Vtu(d).make()}


def make(d, root):
    """the bytes of the main file; side files are put into root"""
    f = MAKE[d["kind"]]
    return f(d, root) if d["kind"] in ("xdmf", "exodus", "med", "tetgen") else f(d)
