"""Concretisation / abstraction between the specification's abstract meshes and
meshio.Mesh objects.  No judgement is made here: the functions only translate.

Abstract mesh (JSON object):
  dim   2 | 3                       spatial dimension of the points
  pts   [token, ...]                one token per point row
  pdt   "f8" | "f4" | ...           dtype of the points
  pdig  int                         (observed only) digits of agreement, 17 = bit exact
  blocks [{t, dt, c:[[idx..]..]}]   cell blocks
  pd    [{n, nc, dt, r:[tok..], dig}]        point data (nc 0 = one dimensional array)
  cd    [{n, nc, dt, r:[[tok..]..], dig}]    cell data, one list per block
  fd    [{n, v:[int..]}]            field data
  ps    [{n, m:[idx..]}]            point sets
  cs    [{n, m:[[idx..]..]}]        cell sets (one list per block; [-1] stands for None)

Tokens of data rows: a literal integer v with |v| < 10**6 stands for the scalar v;
a token >= 10**7 stands for an opaque row of values derived from the token.
Token 0 in `pts` / -999999 in data = a row that is none of the known ones.
"""
import math

import numpy as np

UNKNOWN = -999999
BIG = 10**7

PHI = 0.6180339887498949
SQ2 = 1.4142135623730951
PI = math.pi


def _frac(x):
    return x - math.floor(x)


# origin and spacing of the regular lattice, per axis
LATTICE = [(-0.5, 0.25), (1.5, 0.5), (2.0, 0.125)]


def axis_value(ax, i):
    return [-1.0, 0.3, 5.0][ax] + i + 0.4 * _frac((i + 1) * PHI + ax * 0.3)


def coord(tok, ax, prof="plain"):
    """coordinate `ax` of point token `tok`"""
    if prof in ("lattice", "axes"):
        i = [(tok - 1) % 40, (tok - 1) // 40 % 40, (tok - 1) // 1600][ax]
        return LATTICE[ax][0] + i * LATTICE[ax][1] if prof == "lattice" else axis_value(ax, i)
    if prof == "flat" and ax == 2:
        return 0.0
    if prof == "flatpos":
        # planar: z = 0, all coordinates positive
        return 0.0 if ax == 2 else 0.125 + _frac(tok * PHI + ax * SQ2 * 0.37 + 0.1)
    base = 0.11 + 0.88 * _frac(tok * PHI + ax * SQ2 * 0.37 + tok * tok * 0.0031)
    sgn = -1.0 if (tok + ax) % 3 == 0 else 1.0
    if prof in ("plain", "flat"):
        return sgn * base * (1 + (tok % 7))
    if prof == "wide":
        e = [-7, 0, 5, -3, 2, -12, 9][(2 * tok + ax) % 7]
        return sgn * base * 10.0**e
    if prof == "tiny":
        e = [-5, -9, 0, -17][(tok + ax) % 4]
        return sgn * base * 10.0**e
    if prof == "zeros":
        if (tok + ax) % 4 == 0:
            return 0.0
        if (tok + ax) % 4 == 1:
            return float(tok * (1 if ax % 2 else -1))
        return sgn * base * (1 + (tok % 7))
    raise ValueError(prof)


# names that TLA+ strings or JSON should not have to carry
ALIASES = {"@@uni": "Gr\u00f6\u00dfe", "@@long40": "y" * 40, "@@long90": "z" * 90, "@@quote": 'a"b', "@@back": "a\\b"}
REALNAME = {v: k for k, v in ALIASES.items()}


def real(n):
    return ALIASES.get(n, n)


def alias(n):
    return REALNAME.get(str(n), str(n))


# rows of numbers at the edges of their type
SPECIAL = BIG + 9990000
EDGES = {
    8: [math.nan, math.inf, -math.inf, 1.7e308, -5e-324, 1e-300, 0.1, -1.3333333333333333],
    4: [math.nan, math.inf, -math.inf, 3.4e38, -3e-30, 1.2e-38, 0.1, -1.3333333],
}
INT_EDGES = {"i8": -(2**63), "u8": 2**64 - 2**21, "i4": -(2**31), "u4": 2**32 - 2**21}


def rowvals(tok, nc, prof="plain", size=8):
    """values of the opaque data row `tok`"""
    n = max(nc, 1)
    if tok == SPECIAL + 9999:  # not given
        return [math.nan] * n
    if tok >= SPECIAL:
        return [EDGES[size][(tok + c) % 8] for c in range(n)]
    out = []
    for c in range(n):
        base = 0.13 + 0.77 * _frac((tok % 9999991) * PHI + c * SQ2 + 0.3)
        sgn = -1.0 if (tok + c) % 3 == 1 else 1.0
        if prof == "wide":
            e = [0, -8, 4, -2, 11][(tok + 3 * c) % 5]
            out.append(sgn * base * 10.0**e)
        elif prof == "tiny":
            e = [-5, -9, 0, -17][(tok + c) % 4]
            out.append(sgn * base * 10.0**e)
        else:
            out.append(sgn * base * (1 + tok % 5))
    return out


def int_rowvals(tok, nc, dt, prof):
    if tok >= SPECIAL and dt in INT_EDGES:
        return [INT_EDGES[dt] + (tok - SPECIAL) * 129 + c for c in range(nc)]
    # digits of the token: two components already tell rows apart
    if prof != "wide" and dt in ("i2", "u2", "i4", "u4", "i8", "u8"):
        return [1 + (tok // 9973 ** (c % 2) * 13 + c * 17 + 5) % 9973 for c in range(nc)]
    if nc == 2:
        base, i = divmod(tok - 10**7, 10**4)
        tok = i + 127 * 5 * base
    v = [1 + (tok // 127 ** (c % 3) * 13 + c * 17 + 5) % 127 for c in range(nc)]
    if prof == "wide":
        # use the whole range of the type (below 10**12)
        s = {"i2": 257, "u2": 515, "i4": 16900011, "u4": 33700011, "i8": 7800000011, "u8": 7800000011}.get(dt, 1)
        v = [x * s for x in v]
        if dt[0] == "i":
            v = [-x if (tok + c) % 3 == 0 else x for c, x in enumerate(v)]
    return v


def signs(m, points):
    """per block and cell: sign of the volume spanned by the corners that FLAC3D
    wants right-handed, 0 where rounding could decide it (None-geometry types: 1)"""
    quad = {"tetra": (0, 1, 2, 3), "pyramid": (0, 1, 3, 4), "wedge": (0, 1, 3, 2), "hexahedron": (0, 1, 3, 4)}
    for t in ("tetra10", "pyramid13", "wedge15", "wedge18", "hexahedron20", "hexahedron24", "hexahedron27"):
        quad[t] = quad[t.rstrip("0123456789")]
    out = []
    for b in m["blocks"]:
        q = quad.get(b["t"])
        if q is None or points.shape[1] != 3:
            out.append([1] * len(b["c"]))
            continue
        res = []
        for c in b["c"]:
            if len(c) <= max(q) or min(c) < 0 or max(c) >= len(points):
                res.append(1)
                continue
            p = [points[c[i]].astype(float) for i in q]
            det = float(np.dot(p[1] - p[0], np.cross(p[2] - p[0], p[3] - p[0])))
            a, b, c_ = p[1] - p[0], p[2] - p[0], p[3] - p[0]
            size = np.linalg.norm(a) * np.linalg.norm(b) * np.linalg.norm(c_)
            coord = max(np.abs(x).max() for x in p)
            eps = 1e-5 if points.dtype.itemsize == 4 else 1e-10
            flat = abs(det) <= eps * max(size, coord**3)
            res.append(0 if flat else 1 if det > 0 else -1)
        out.append(res)
    return out


def np_dtype(s, layout="c"):
    order = ">" if layout == "be" else "="
    return np.dtype(s).newbyteorder(order)


def relayout(a, layout):
    """same values, other memory layout"""
    a = np.asarray(a)
    if layout in ("c", None):
        return np.ascontiguousarray(a)
    if layout == "be":
        return np.ascontiguousarray(a).astype(a.dtype.newbyteorder(">"))
    if layout == "f":
        return np.asfortranarray(a)
    if layout == "strided":
        big = np.empty(tuple(2 * s for s in a.shape), dtype=a.dtype)
        big[...] = np.asarray(99, dtype=a.dtype)
        view = big[tuple(slice(0, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    if layout == "rev":
        b = np.ascontiguousarray(a[::-1])
        return b[::-1]
    if layout == "ro":
        b = np.ascontiguousarray(a).copy()
        b.setflags(write=False)
        return b
    raise ValueError(layout)


def points_array(m):
    dim, prof = m["dim"], m.get("prof", "plain")
    a = np.array(
        [[coord(t, ax, prof) for ax in range(dim)] for t in m["pts"]], dtype=float
    ).reshape(len(m["pts"]), dim)
    dt = m.get("pdt", "f8")
    if dt[0] in "iu":
        return np.clip(np.round(a * 7), -(2**31) + 1, 2**31 - 1).astype(dt)
    return a.astype(np.dtype(dt))


def data_rows(toks, nc, dt, prof):
    """array for a list of tokens"""
    d = np.dtype(dt)
    n = len(toks)
    if nc == 0:
        out = np.zeros(n, dtype=d)
        for i, t in enumerate(toks):
            if abs(t) < BIG:
                out[i] = t
            elif d.kind in "iu":
                out[i] = int_rowvals(t, 1, dt, prof)[0]
            else:
                out[i] = rowvals(t, 0, prof, d.itemsize)[0]
        return out
    out = np.zeros((n, nc), dtype=d)
    for i, t in enumerate(toks):
        if abs(t) < BIG:
            out[i, :] = t
        elif d.kind in "iu":
            out[i, :] = int_rowvals(t, nc, dt, prof)
        else:
            out[i, :] = rowvals(t, nc, prof, d.itemsize)
    return out


def concretise(m, meshio, as_lists=False):
    lay = m.get("lay", "c")
    prof = m.get("prof", "plain")
    # memory layout may differ per component
    pl = lay
    points = relayout(points_array(m), pl)
    cells = []
    for b in m["blocks"]:
        if b["t"].startswith("polyhedron"):
            data = [[np.array(f, dtype=b.get("dt", "i8")) for f in cell] for cell in b["c"]]
            cells.append(meshio.CellBlock(b["t"], data))
            continue
        nn = len(b["c"][0]) if b["c"] else b.get("nn") or meshio._mesh.num_nodes_per_cell[b["t"]]
        arr = np.array(b["c"], dtype=b.get("dt", "i8")).reshape(len(b["c"]), nn)
        cells.append(meshio.CellBlock(b["t"], relayout(arr, lay)))
    pd = {
        real(d["n"]): relayout(
            np.array([[t // 1000, t % 1000] for t in d["r"]], dtype=d["dt"]).reshape(-1, 2)
            if d["n"] == "gmsh:dim_tags"
            else data_rows(d["r"], d["nc"], d["dt"], prof),
            lay,
        )
        for d in m.get("pd", [])
    }
    cd = {
        real(d["n"]): [relayout(data_rows(r, d["nc"], d["dt"], prof), lay) for r in d["r"]]
        for d in m.get("cd", [])
    }
    fd = {real(d["n"]): np.array(d["v"], dtype=int) for d in m.get("fd", [])}
    ps = {real(d["n"]): np.array(d["m"], dtype=int) for d in m.get("ps", [])}
    cs = {
        real(d["n"]): [None if list(x) == [-1] else np.array(x, dtype=int) for x in d["m"]]
        for d in m.get("cs", [])
    }
    kw = {}
    if "gp" in m and m["gp"]:
        kw["gmsh_periodic"] = [
            [
                g["dim"],
                (g["s"], g["m"]),
                (rowvals(g["aff"], 16, prof) if g["aff"] else None),
                np.array(g["pairs"], dtype=int).reshape(-1, 2),
            ]
            for g in m["gp"]
        ]
    mesh = meshio.Mesh(
        points, cells, point_data=pd, cell_data=cd, field_data=fd,
        point_sets=ps, cell_sets=cs, **kw,
    )
    if "ni" in m:  # Netgen: pairs of points that are the same
        mesh.info = {
            "netgen:identifications": np.array(m["ni"]["p"], dtype=int).reshape(-1, 3),
            "netgen:identificationtypes": np.array([m["ni"]["t"]], dtype=int),
        }
    if "mt" in m:  # MED families
        mesh.point_tags = {x["i"]: list(x["n"]) for x in m["mt"]["p"]}
        mesh.cell_tags = {x["i"]: list(x["n"]) for x in m["mt"]["c"]}
    return mesh


# ---------------------------------------------------------------- abstraction
def digits(a, b):
    """decimal digits of agreement of two equally shaped float rows; 17 = identical"""
    worst = 17
    for x, y in zip(np.ravel(a).tolist(), np.ravel(b).tolist()):
        if x == y or (x != x and y != y):
            continue
        if not (math.isfinite(x) and math.isfinite(y)):
            return 0
        den = max(abs(x), abs(y))
        err = abs(x - y) / den
        d = 16 if err < 1e-16 else int(math.floor(-math.log10(err) + 1e-9))
        worst = min(worst, max(d, 0))
    return worst


class Dictionary:
    """All the rows the scenario may contain."""

    def __init__(self, meshes):
        self.points = []  # (tok, row3)
        self.iexact = {}  # exact rows of integers
        self.rows = {}  # nc -> list of (tok, row)
        seen = set()
        seenr = set()
        for m in meshes:
            pa = points_array(m).astype(float)
            for t, row in zip(m["pts"], pa):
                key = (t, m.get("prof"), m.get("pdt"), m["dim"])
                if key in seen:
                    continue
                seen.add(key)
                r3 = np.zeros(3)
                r3[: len(row)] = row
                self.points.append((t, r3))
            for g in m.get("gp", []):
                if g["aff"]:
                    self.rows.setdefault(16, []).append(
                        (g["aff"], np.array(rowvals(g["aff"], 16, m.get("prof", "plain"))))
                    )
            for d in list(m.get("pd", [])) + list(m.get("cd", [])):
                if d["n"] == "gmsh:dim_tags":
                    continue
                rr = d["r"]
                flat = [t for r in rr for t in r] if rr and isinstance(rr[0], list) else rr
                for t in flat:
                    if abs(t) >= BIG:
                        key = (t, d["nc"], d["dt"], m.get("prof"))
                        if key in seenr:
                            continue
                        seenr.add(key)
                        arr = data_rows([t], d["nc"], d["dt"], m.get("prof", "plain"))
                        self.rows.setdefault(max(d["nc"], 1), []).append(
                            (t, np.asarray(arr[0], dtype=float).reshape(-1))
                        )
                        if arr.dtype.kind in "iu":
                            self.iexact.setdefault(tuple(np.ravel(arr[0]).tolist()), t)
        self.prow = np.array([r for _, r in self.points]).reshape(-1, 3)
        self.ptok = [t for t, _ in self.points]
        self.pexact = {}
        for t, r in self.points:
            self.pexact.setdefault((r + 0.0).tobytes(), t)
        self.rmat = {
            k: (np.array([r for _, r in v]).reshape(-1, k), [t for t, _ in v])
            for k, v in self.rows.items()
        }
        self.rexact = {}
        for k, v in self.rows.items():
            for t, r in v:
                self.rexact.setdefault((k, (r + 0.0).tobytes()), t)

    def _match(self, row, mat, toks):
        if len(toks) == 0:
            return None
        if len(toks) > 500 and math.isfinite(row[0]):
            # only rows whose first number is near can match
            if not hasattr(self, "sorted"):
                self.sorted = {}
            if id(mat) not in self.sorted:
                o = np.argsort(mat[:, 0], kind="stable")
                self.sorted[id(mat)] = (o, mat[o, 0])
            o, col = self.sorted[id(mat)]
            w = abs(row[0]) * 1.1e-3
            sel = o[np.searchsorted(col, row[0] - w, "left") : np.searchsorted(col, row[0] + w, "right")]
            if len(sel) == 0:
                return None
            mat, toks = mat[sel], [toks[i] for i in sel]
        with np.errstate(all="ignore"):
            den = np.maximum(np.abs(mat), np.abs(row)[None, :])
            err = np.where(den == 0, 0.0, np.abs(mat - row[None, :]) / den)
            same = (mat == row[None, :]) | (np.isnan(mat) & np.isnan(row)[None, :])
            err = np.where(same, 0.0, err)
        err = np.nan_to_num(err, nan=9.0).max(axis=1)
        k = int(err.argmin())
        if err[k] > 1e-3:
            return None
        return toks[k], digits(mat[k], row)

    def point_row(self, row):
        r3 = np.zeros(3)
        r3[: min(len(row), 3)] = row[:3]
        t = self.pexact.get((r3 + 0.0).tobytes())
        if t is not None:
            return t, 17
        return self._match(r3, self.prow, self.ptok)

    def data_row(self, row):
        """-> (token, digits, ncomp_of_token)"""
        n = len(row)
        row = np.asarray(row, dtype=float)
        t = self.rexact.get((n, (row + 0.0).tobytes()))
        if t is not None:
            return t, 17, n
        if n == 3 and row[2] == 0:
            t = self.rexact.get((2, (row[:2] + 0.0).tobytes()))
            if t is not None:
                return t, 17, 2
        if n in self.rmat:
            m = self._match(row, *self.rmat[n])
            if m:
                return m[0], m[1], n
        if n == 3 and row[2] == 0 and 2 in self.rmat:
            m = self._match(row[:2], *self.rmat[2])
            if m:
                return m[0], m[1], 2
        return None


def _dt(a):
    k = a.dtype.kind
    if k in "iuf":
        return f"{k}{a.dtype.itemsize}"
    return k


def abstract_rows(arr, D):
    """-> (tokens, digits)"""
    arr = np.asarray(arr)
    toks, dig = [], 17
    if arr.dtype.kind not in "iufb":
        return [UNKNOWN] * len(arr), 0
    if arr.ndim > 2:
        arr = arr.reshape(len(arr), -1)
    for row in arr:
        r = np.asarray(row, dtype=float).reshape(-1)
        lit = None
        if r.size == 1 and float(r[0]).is_integer() and abs(r[0]) < 2 * 10**6:
            toks.append(int(r[0]))
            continue
        if arr.dtype.kind in "iu":
            key = tuple(np.ravel(row).tolist())
            t = D.iexact.get(key)
            if t is None and len(key) == 3 and key[2] == 0:
                t = D.iexact.get(key[:2])
            if t is not None:
                toks.append(t)
                continue
            if np.abs(r).max() > 2**52:
                toks.append(UNKNOWN)
                continue
        m = D.data_row(r)
        if m is not None:
            toks.append(m[0])
            dig = min(dig, m[1])
        else:
            toks.append(UNKNOWN)
    return toks, dig


def _int_list(x):
    return [int(v) for v in np.asarray(x).reshape(-1).tolist()]


def _ints(a):
    """Whatever is there as a list of small integers."""
    if a is None:
        return []
    try:
        return [int(x) for x in np.asarray(a).ravel()]
    except (TypeError, ValueError, OverflowError):
        return [-1]


def abstract(mesh, D):
    pts = np.asarray(mesh.points)
    out = {}
    n = len(pts)
    out["dim"] = int(pts.shape[1]) if pts.ndim == 2 else 0
    toks, dig = [], 17
    for row in pts:
        m = D.point_row(np.asarray(row, dtype=float).reshape(-1))
        if m is None:
            toks.append(0)
        else:
            toks.append(m[0])
            dig = min(dig, m[1])
    out["pts"], out["pdig"], out["pdt"] = toks, dig, _dt(pts)
    blocks = []
    for b in mesh.cells:
        if b.type.startswith("polyhedron"):
            blocks.append(
                {"t": b.type, "dt": "i8", "c": [[_int_list(f) for f in cell] for cell in b.data]}
            )
        else:
            d = np.asarray(b.data)
            if d.ndim != 2 or d.dtype.kind not in "iu":
                blocks.append({"t": b.type, "dt": _dt(d), "c": [[UNKNOWN]]})
            else:
                blocks.append({"t": b.type, "dt": _dt(d), "c": [[int(v) for v in r] for r in d.tolist()]})
    out["blocks"] = blocks

    def nc_of(a):
        a = np.asarray(a)
        if a.ndim == 1:
            return 0
        return int(np.prod(a.shape[1:]))

    out["pd"] = []
    for k, v in (mesh.point_data or {}).items():
        v = np.asarray(v)
        if k == "gmsh:dim_tags" and v.ndim == 2 and v.shape[1] == 2 and v.dtype.kind in "iu":
            t, dg = [int(a) * 1000 + int(b) for a, b in v.tolist()], 17
        else:
            t, dg = abstract_rows(v, D)
        out["pd"].append({"n": alias(k), "nc": nc_of(v), "dt": _dt(np.asarray(v)), "r": t, "dig": dg})
    out["cd"] = []
    for k, v in (mesh.cell_data or {}).items():
        rs, dg = [], 17
        ncs, dts = set(), set()
        for a in v:
            t, d1 = abstract_rows(a, D)
            rs.append(t)
            dg = min(dg, d1)
            if len(t):
                ncs.add(nc_of(a))
                dts.add(_dt(np.asarray(a)))
        out["cd"].append(
            {
                "n": alias(k),
                "nc": max(ncs) if len(ncs) == 1 else (0 if not ncs else -1),
                "dt": min(dts) if len(dts) == 1 else ("" if not dts else ("imix" if all(x[0] in "iu" for x in dts) else "mixed")),
                "r": rs,
                "dig": dg,
            }
        )
    out["fd"] = []
    for k, v in (mesh.field_data or {}).items():
        try:
            out["fd"].append({"n": alias(k), "v": _int_list(v)})
        except Exception:
            out["fd"].append({"n": alias(k), "v": [UNKNOWN]})
    out["ps"] = [{"n": alias(k), "m": _int_list(v)} for k, v in (mesh.point_sets or {}).items()]
    out["cs"] = [
        {"n": alias(k), "m": [[-1] if x is None else _int_list(x) for x in v]}
        for k, v in (mesh.cell_sets or {}).items()
    ]
    fam = [getattr(mesh, a, None) for a in ("point_tags", "cell_tags")]
    info = getattr(mesh, "info", None)
    if isinstance(info, dict) and info.get("netgen:identifications") is not None:
        out["ni"] = {"p": [_ints(r) for r in np.atleast_1d(info["netgen:identifications"])], "t": _ints(info.get("netgen:identificationtypes"))}
    if any(isinstance(x, dict) for x in fam):
        out["mt"] = {
            k: [{"i": int(i), "n": [str(s) for s in x[i]]} for i in sorted(x)] if isinstance(x, dict) else []
            for k, x in zip("pc", fam)
        }
    gp = getattr(mesh, "gmsh_periodic", None)
    out["gp"] = []
    if gp:
        for g in gp:
            aff = 0
            if g[2] is not None and len(g[2]) > 0:
                mm = D.data_row(np.asarray(g[2], dtype=float).reshape(-1))
                aff = mm[0] if mm and mm[1] >= 15 else UNKNOWN
            out["gp"].append(
                {"dim": int(g[0]), "s": int(g[1][0]), "m": int(g[1][1]),
                 "aff": aff, "pairs": [[int(x) for x in p] for p in np.asarray(g[3]).tolist()]}
            )
    return out
