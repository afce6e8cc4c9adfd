"""Legal rewritings of text mesh files.

Each function takes the text of a file and a random source, and says the same
thing in another way its format allows; None if there is nothing to rewrite.
Nothing here uses meshio.
"""
import re

FLOAT = re.compile(r"(?<![\w.+-])[+-]?(?:\d+\.\d*|\.\d+|\d+(?=[eE]))(?:[eE][+-]?\d+)?(?![\w.])")
VARY = {}


def rule(fmts, name):
    def reg(f):
        for x in fmts.split():
            VARY[x, name] = f
        return f
    return reg


def lines(t):
    return t.split("\n")


def chance(r, p):
    return r.random() < p


def blanks(r, tabs=True):
    return r.choice([" ", " ", "  ", "    "] + (["\t", " \t"] if tabs else []))


def put(text, r, make, ok=lambda prev, line: True, p=0.3):
    """new lines in front of some lines (and, if allowed, at the end)"""
    out, n, prev = [], 0, None
    ls = lines(text)
    for i, x in enumerate(ls):
        if i > 0 and x == "" and i == len(ls) - 1:
            out.append(x)
            break
        if ok(prev, x) and (chance(r, p) or n == 0):
            out += make(r)
            n += 1
        out.append(x)
        prev = x
    return "\n".join(out) if n else None


def reformat(tok, r):
    v = float(tok)
    s = r.choice([repr(v), tok.upper(), tok, "+" + repr(v) if not tok.startswith(("-", "+")) else tok, repr(v).upper(),
                  "%.17E" % v, "%.16e" % v if float("%.16e" % v) == v else tok])
    return s if float(s) == v else tok


def numbers(text, r, keep=lambda line: False):
    out, n = [], 0
    for x in lines(text):
        if keep(x):
            out.append(x)
            continue
        y = FLOAT.sub(lambda m: reformat(m.group(), r) if chance(r, 0.6) else m.group(), x)
        n += y != x
        out.append(y)
    return "\n".join(out) if n else None


def respace(text, r, keep=lambda line: False, tabs=True, lead=True, trail=True):
    out = []
    for x in lines(text):
        if keep(x) or x.strip() == "":
            out.append(x)
            continue
        y = blanks(r, tabs).join([]) if False else re.sub(r"[ \t]+", lambda m: blanks(r, tabs), x.strip())
        out.append((blanks(r, tabs) if lead and chance(r, 0.4) else "") + y + (blanks(r, tabs) if trail and chance(r, 0.4) else ""))
    return "\n".join(out)


def is_num(x):
    return bool(re.match(r"^\s*[-+]?[\d.]", x))


def newids(n, r, how=None):
    """injective new numbers for n things: gaps, any order, from 1"""
    how = how or r.choice(["gap", "gap", "rev", "mix", "shift"])
    if how == "shift":
        o = r.randrange(1, 50)
        return [i + o for i in range(n)]
    ids = sorted(r.sample(range(1, 3 * n + 12), n))
    if how == "rev":
        ids.reverse()
    if how == "mix":
        r.shuffle(ids)
    return ids


# ---- things many formats share ------------------------------------------------
ALLTEXT = ("abaqus avsucd dolfin-xml flac3d gmsh22 gmsh40 gmsh41 mdpa medit nastran netgen obj off permas ply stl su2 "
           "tecplot tetgen ugrid vtk51 vtk42 vtu xdmfh wkt xdmf ansys")


@rule(ALLTEXT, "crlf")
def crlf(t, r):
    return t.replace("\n", "\r\n") if "\n" in t else None


@rule(ALLTEXT, "nonl")
def nonl(t, r):
    return t.rstrip("\n") if t.endswith("\n") else None


@rule(ALLTEXT, "tail")
def tail(t, r):
    return t + ("\n" if not t.endswith("\n") else "") + r.choice(["\n", "\n\n", "  \n", "\n \n\n"])


# ---- Abaqus -------------------------------------------------------------------
@rule("abaqus", "comment")
def _(t, r):
    return put(t, r, lambda r: [r.choice(["**", "** 1, 2, 3", "**NODE", "** *ELEMENT, TYPE=C3D8"])], p=0.2)


@rule("abaqus", "blank")
def _(t, r):
    return put(t, r, lambda r: [r.choice(["", "   "])], p=0.2)


@rule("abaqus", "spaces")
def _(t, r):
    out = []
    for x in lines(t):
        if x and not x.startswith("**"):
            head = "" if x.startswith("*") else r.choice(["", " ", "    "])
            x = head + re.sub(r"\s*,\s*", lambda m: r.choice([",", ", ", " , ", ",   "]), x)
            if x.startswith("*"):
                x = re.sub(r"\s*=\s*", lambda m: r.choice(["=", " = ", "= "]), x)
            x += r.choice(["", " ", "  "])
        out.append(x)
    return "\n".join(out)


@rule("abaqus", "case")
def _(t, r):
    out = []
    for x in lines(t):
        if x.startswith("*") and not x.startswith("**"):
            w = x.split(",")
            f = r.choice([str.lower, str.title, str.upper])
            for i, y in enumerate(w):
                k, e, v = y.partition("=")
                w[i] = f(k) + e + (r.choice([str.lower, str.upper])(v) if k.strip().upper() == "TYPE" else v)
            x = ",".join(w)
        out.append(x)
    return "\n".join(out)


def abaqus_sections(t):
    """[header, [data lines]]; the first header is what comes before any keyword"""
    out = [["", []]]
    for x in lines(t):
        if x.startswith("*") and not x.startswith("**"):
            out.append([x, []])
        else:
            out[-1][1].append(x)
    return out


def abaqus_text(s):
    return "\n".join(y for h, d in s for y in ([h] if h else []) + d)


def abaqus_kind(h):
    return h.split(",")[0].strip("* ").upper()


def csv(x):
    return [y.strip() for y in x.strip().rstrip(",").split(",")] if x.strip() and not x.startswith("**") else []


@rule("abaqus", "renumber")
def _(t, r):
    s = abaqus_sections(t)
    nodes = [w[0] for h, d in s if abaqus_kind(h) == "NODE" for x in d for w in [csv(x)] if w]
    node = dict(zip(nodes, map(str, newids(len(nodes), r))))
    els, ids = {}, []
    for h, d in s:
        k = abaqus_kind(h)
        if k == "NODE":
            d[:] = [",".join([node[w[0]]] + w[1:]) if w else x for x in d for w in [csv(x)]]
        elif k == "ELEMENT":
            # records may be spread over lines: a line that ends with a comma goes on
            go = False
            for i, x in enumerate(d):
                if not x.strip() or x.startswith("**"):
                    continue
                w = csv(x)
                if not go:
                    ids.append((d, i, w[0]))
                d[i] = ",".join((w[:1] if not go else []) + [node[y] for y in (w if go else w[1:])]) + ("," if x.strip().endswith(",") else "")
                go = x.strip().endswith(",")
        elif k == "NSET" and "GENERATE" not in h.upper():
            d[:] = [",".join(node[y] for y in w) + ("," if x.strip().endswith(",") else "") if w and w[0].isdigit() else x for x in d for w in [csv(x)]]
    new = newids(len(ids), r)
    for (d, i, old), n in zip(ids, new):
        els[old] = str(n)
        d[i] = str(n) + d[i][d[i].index(","):]
    for h, d in s:
        if abaqus_kind(h) == "ELSET" and "GENERATE" not in h.upper():
            d[:] = [",".join(els[y] for y in w) + ("," if x.strip().endswith(",") else "") if w and w[0].isdigit() else x for x in d for w in [csv(x)]]
    return abaqus_text(s)


@rule("abaqus", "wrap")
def _(t, r):
    """sets with another number of entries to the line, element records over several lines"""
    s = abaqus_sections(t)
    for h, d in s:
        k = abaqus_kind(h)
        if k in ("NSET", "ELSET") and "GENERATE" not in h.upper():
            w = [y for x in d for y in csv(x)]
            if not w or not all(y.isdigit() for y in w):
                continue
            n = r.randrange(1, 17)
            rest = [x for x in d if not csv(x)]
            c = r.choice([",", ""])
            d[:] = [", ".join(w[i:i + n]) + c for i in range(0, len(w), n)] + rest
        elif k == "ELEMENT":
            out = []
            for x in d:
                w = csv(x)
                if len(w) > 3 and not x.strip().endswith(",") and chance(r, 0.5) and not out[-1:] == ["?"]:
                    i = r.randrange(2, len(w))
                    out += [", ".join(w[:i]) + ",", ", ".join(w[i:])]
                else:
                    out.append(x)
            if not any(x.strip().endswith(",") for x in d):
                d[:] = out
    return abaqus_text(s)


@rule("abaqus", "generate")
def _(t, r):
    """sets of consecutive numbers as a range"""
    s = abaqus_sections(t)
    n = 0
    for sec in s:
        h, d = sec
        if abaqus_kind(h) in ("NSET", "ELSET") and "GENERATE" not in h.upper():
            w = [y for x in d for y in csv(x)]
            if len(w) < 2 or not all(y.isdigit() for y in w):
                continue
            v = list(map(int, w))
            step = v[1] - v[0]
            if step > 0 and all(b - a == step for a, b in zip(v, v[1:])):
                sec[0] = h.rstrip() + ", GENERATE"
                d[:] = [f"{v[0]}, {v[-1]}, {step}"] + [x for x in d if not csv(x)]
                n += 1
    return abaqus_text(s) if n else None


@rule("abaqus", "pieces")
def _(t, r):
    """a set, a block of nodes or a block of elements given in two pieces"""
    s = abaqus_sections(t)
    out, n = [], 0
    for h, d in s:
        w = [x for x in d if csv(x)]
        if abaqus_kind(h) in ("NSET", "ELSET", "NODE") and len(w) > 1 and "GENERATE" not in h.upper():
            i = r.randrange(1, len(w))
            out += [[h, w[:i]], [h, w[i:]]]
            n += 1
        else:
            out.append([h, d])
    return abaqus_text(out) + "\n" if n else None


@rule("abaqus", "others")
def _(t, r):
    """further keywords that say nothing about the mesh"""
    s = abaqus_sections(t)
    more = [["*PART, NAME=P1", []], ["*END PART", []], ["*MATERIAL, NAME=STEEL", []], ["*ELASTIC", ["210000., 0.3"]],
            ["*SOLID SECTION, ELSET=none, MATERIAL=STEEL", ["1.,"]], ["*STEP", []], ["*BOUNDARY", ["1, 1, 3"]], ["*END STEP", []]]
    out = [s[0]]
    if not s[0][1]:
        out.append(["*HEADING", ["a model"]])
    for x in s[1:]:
        if chance(r, 0.5):
            out.append(r.choice(more))
        out.append(x)
    return abaqus_text(out)


@rule("abaqus", "keyword")
def _(t, r):
    """other elements with the same shape"""
    alt = {"T3D2": ["B31", "T2D2"], "CPS4R": ["S4", "S4R", "CPS4", "CPE4", "CAX4"], "S4": ["S4R", "CPS4"], "S3": ["STRI3", "S3R", "CPS3", "CPE3"],
           "C3D8": ["C3D8R", "C3D8H"], "C3D10": ["C3D10M", "C3D10H"], "C3D20": ["C3D20R", "C3D20H"]}
    cl = [{"T2D2", "T3D2", "B21", "B31"}, {"CPS3", "STRI3", "S3", "S3R"}, {"CPS4", "CPS4R", "S4", "S4R"}, {"C3D8", "C3D8R", "C3D8H", "C3D8I"},
          {"C3D10", "C3D10M", "C3D10H"}, {"C3D20", "C3D20R", "C3D20H"}, {"C3D4", "C3D4H"}]
    n = [0]

    def f(m):
        for c in cl:
            if m.group(2).upper() in c:
                n[0] += 1
                return m.group(1) + r.choice(sorted(c))
        return m.group()
    u = re.sub(r"(?m)^(\*ELEMENT,\s*TYPE\s*=\s*)(\w+)", f, t, flags=re.I)
    return u if n[0] else None


@rule("abaqus", "inline")
def _(t, r):
    """a set that covers a whole element section, named in the section's own line"""
    s = abaqus_sections(t)
    sets = [(h, [y for x in d for y in csv(x)]) for h, d in s if abaqus_kind(h) == "ELSET" and "GENERATE" not in h.upper()]
    names = [re.search(r"ELSET\s*=\s*([^,\s]+)", h, re.I).group(1) for h, _ in sets]
    n = 0
    for (h, w), name in zip(sets, names):
        if names.count(name) > 1 or not all(y.isdigit() for y in w):
            continue
        for sec in s:
            if abaqus_kind(sec[0]) == "ELEMENT" and "ELSET" not in sec[0].upper():
                if any(x.strip().endswith(",") for x in sec[1]):
                    continue
                ids = [csv(x)[0] for x in sec[1] if csv(x)]
                if ids and sorted(ids) == sorted(w):
                    sec[0] += ", ELSET=" + name
                    s = [x for x in s if x[0] != h]
                    n += 1
                    break
    return abaqus_text(s) if n else None


@rule("abaqus", "numbers")
def _(t, r):
    return numbers(t, r, lambda x: x.startswith("*"))


# ---- AVS-UCD ------------------------------------------------------------------
@rule("avsucd", "comment")
def _(t, r):
    return "".join(r.choice(["# a comment\n", "#\n", "# 8 3 4 1 0\n"]) for _ in range(r.randrange(1, 4))) + t


@rule("avsucd", "spaces")
def _(t, r):
    return respace(t, r, lambda x: x.startswith("#"))


@rule("avsucd", "numbers")
def _(t, r):
    return numbers(t, r, lambda x: x.startswith("#"))


def avs_parts(t):
    ls = lines(t)
    i = 0
    while ls[i].startswith("#"):
        i += 1
    nn, nc, npd, ncd, _ = map(int, ls[i].split())
    i += 1
    a = i
    b = a + nn
    c = b + nc
    parts = {"head": ls[:a], "nodes": ls[a:b], "cells": ls[b:c], "pd": None, "cd": None}
    j = c
    for key, n, on in (("pd", nn, npd), ("cd", nc, ncd)):
        if on:
            k = int(ls[j].split()[0])
            parts[key] = (ls[j:j + 1 + k], ls[j + 1 + k:j + 1 + k + n])
            j += 1 + k + n
    parts["rest"] = ls[j:]
    return parts


def avs_text(p):
    out = p["head"] + p["nodes"] + p["cells"]
    for k in ("pd", "cd"):
        if p[k]:
            out += p[k][0] + p[k][1]
    return "\n".join(out + p["rest"])


@rule("avsucd", "renumber")
def _(t, r):
    p = avs_parts(t)

    def ren(ls, m):
        return [" ".join([str(m[x.split()[0]])] + x.split()[1:]) for x in ls]
    node = dict(zip([x.split()[0] for x in p["nodes"]], newids(len(p["nodes"]), r)))
    cell = dict(zip([x.split()[0] for x in p["cells"]], newids(len(p["cells"]), r)))
    p["nodes"] = ren(p["nodes"], node)
    p["cells"] = [" ".join([str(cell[w[0]]), w[1], w[2]] + [str(node[y]) for y in w[3:]]) for x in p["cells"] for w in [x.split()]]
    if p["pd"]:
        p["pd"] = (p["pd"][0], ren(p["pd"][1], node))
    if p["cd"]:
        p["cd"] = (p["cd"][0], ren(p["cd"][1], cell))
    return avs_text(p)


@rule("avsucd", "roworder")
def _(t, r):
    """rows of data in any order: each names its node or cell"""
    p = avs_parts(t)
    if not (p["pd"] or p["cd"]):
        return None
    for k in ("pd", "cd"):
        if p[k]:
            d = list(p[k][1])
            r.shuffle(d)
            p[k] = (p[k][0], d)
    return avs_text(p)


@rule("avsucd", "units")
def _(t, r):
    p = avs_parts(t)
    if not (p["pd"] or p["cd"]):
        return None
    for k in ("pd", "cd"):
        if p[k]:
            h = p[k][0]
            p[k] = ([h[0]] + [x.split(",")[0] + r.choice([", m/s", ",kg", " , none", ", "]) for x in h[1:]], p[k][1])
    return avs_text(p)


# ---- FLAC3D -------------------------------------------------------------------
@rule("flac3d", "comment")
def _(t, r):
    return put(t, r, lambda r: [r.choice(["* a comment", "*", "* Z B8 1 1 2 3 4"])], lambda p, x: re.match(r"[GZF*]", x), p=0.25)


@rule("flac3d", "blank")
def _(t, r):
    return put(t, r, lambda r: [r.choice(["", "  "])], lambda p, x: re.match(r"[GZF*]", x), p=0.25)


@rule("flac3d", "spaces")
def _(t, r):
    return respace(t, r, lambda x: x.startswith("*") or "GROUP" in x, lead=False)


@rule("flac3d", "numbers")
def _(t, r):
    return numbers(t, r, lambda x: not x.startswith("G"))


@rule("flac3d", "renumber")
def _(t, r):
    ls = lines(t)
    pts = [x.split()[1] for x in ls if re.match(r"G\s", x)]
    node = dict(zip(pts, newids(len(pts), r)))
    cell = {k: [x.split()[2] for x in ls if re.match(k + r"\s", x)] for k in "ZF"}
    cell = {k: dict(zip(v, newids(len(v), r))) for k, v in cell.items()}
    out, grp = [], None
    for x in ls:
        w = x.split()
        if x.startswith(("ZGROUP", "FGROUP")):
            grp = x[0]
        elif w and w[0] == "G":
            x, grp = " ".join(["G", str(node[w[1]])] + w[2:]), None
        elif w and w[0] in ("Z", "F"):
            x, grp = " ".join([w[0], w[1], str(cell[w[0]][w[2]])] + [str(node[y]) for y in w[3:]]), None
        elif x.startswith("*"):
            grp = None
        elif grp and w:
            x = " ".join(str(cell[grp][y]) for y in w)
        out.append(x)
    return "\n".join(out)


@rule("flac3d", "wrap")
def _(t, r):
    """members of groups with another number to the line"""
    out, grp, n = [], False, 0
    buf = []

    def flush():
        if buf:
            k = r.randrange(1, 12)
            out.extend(" " + " ".join(buf[i:i + k]) for i in range(0, len(buf), k))
            buf.clear()
    for x in lines(t):
        w = x.split()
        if "GROUP" in x and not x.startswith("*"):
            flush()
            grp = True
            n += 1
        elif not w or not w[0].isdigit():
            flush()
            grp = False
        elif grp:
            buf += w
            continue
        out.append(x)
    flush()
    return "\n".join(out) if n else None


@rule("flac3d", "quotes")
def _(t, r):
    return re.sub(r'(?m)^([ZF]GROUP\s+)"([^"\']*)"', r"\1'\2'", t) if "GROUP \"" in t else None


# ---- TetGen -------------------------------------------------------------------
@rule("tetgen", "comment")
def _(t, r):
    u = put(t, r, lambda r: [r.choice(["# a comment", "#", "# 1 2 3"])], p=0.2)
    return "\n".join(x + " # end of line" if x and not x.startswith("#") and chance(r, 0.1) else x for x in lines(u))


@rule("tetgen", "blank")
def _(t, r):
    return put(t, r, lambda r: [r.choice(["", "  "])], p=0.2)


@rule("tetgen ugrid", "spaces")
def _(t, r):
    return respace(t, r, lambda x: x.startswith("#"))


@rule("tetgen ugrid", "numbers")
def _(t, r):
    return numbers(t, r, lambda x: x.startswith("#"))


@rule("tetgen", "wrapup")
def _(t, r):
    return t.rstrip("\n") + "\n# Generated by tetgen -p\n"


@rule("ugrid", "wrap")
def _(t, r):
    w = t.split()
    out = []
    while w:
        k = r.randrange(1, 9)
        out.append(" ".join(w[:k]))
        w = w[k:]
    return "\n".join(out) + "\n"


# ---- OBJ ----------------------------------------------------------------------
@rule("obj", "comment")
def _(t, r):
    return put(t, r, lambda r: [r.choice(["# a comment", "#", "  # v 1 2 3"])], p=0.2)


@rule("obj off", "blank")
def _(t, r):
    return put(t, r, lambda r: [r.choice(["", "  "])], lambda p, x: p is not None, p=0.2)


@rule("obj", "spaces")
def _(t, r):
    return respace(t, r, lambda x: x.startswith("#"))


@rule("obj", "numbers")
def _(t, r):
    return numbers(t, r, lambda x: x.startswith(("#", "f", "g")))


@rule("obj", "others")
def _(t, r):
    return put(t, r, lambda r: [r.choice(["s off", "s 1", "usemtl steel", "mtllib a.mtl", "o thing"])], p=0.2)


@rule("obj", "slashes")
def _(t, r):
    nt, nn, np_ = (len(re.findall(rf"(?m)^\s*{k}\s", t)) for k in ("vt", "vn", "v"))

    def f(x):
        def g(m):
            i = m.group()
            opt = [i]
            if nt == np_:
                opt.append(f"{i}/{i}")
            if nn == np_:
                opt.append(f"{i}//{i}")
            if nt == nn == np_:
                opt.append(f"{i}/{i}/{i}")
            return opt[-1] if len(opt) > 1 else f"{i}"
        return re.sub(r"(?<![\w/-])\d+(?![\w/])", g, x)
    out = [f(x) if re.match(r"\s*f\s", x) else x for x in lines(t)]
    u = "\n".join(out)
    return u if u != t else None


@rule("obj", "relative")
def _(t, r):
    """faces that count back from the last vertex"""
    np_, out, n = 0, [], 0
    for x in lines(t):
        if re.match(r"\s*v\s", x):
            np_ += 1
        if re.match(r"\s*f\s", x) and "/" not in x and chance(r, 0.6):
            x = "f " + " ".join(str(int(y) - np_ - 1) for y in x.split()[1:])
            n += 1
        out.append(x)
    return "\n".join(out) if n else None


# ---- OFF ----------------------------------------------------------------------
@rule("off", "comment")
def _(t, r):
    return put(t, r, lambda r: [r.choice(["# a comment", "#", "# 3 1 2 3"])], lambda p, x: p is not None, p=0.2)


@rule("off", "spaces")
def _(t, r):
    return respace(t, r, lambda x: x.startswith(("#", "OFF")))


@rule("off", "numbers")
def _(t, r):
    return numbers(t, r, lambda x: x.startswith("#"))


@rule("off", "edges")
def _(t, r):
    """the number of edges is of no consequence"""
    return re.sub(r"(?m)^(\s*\d+\s+\d+\s+)0[ \t]*$", lambda m: m.group(1) + str(r.randrange(1, 90)), t, count=1)


# ---- Medit --------------------------------------------------------------------
MEDITKEY = re.compile(r"\s*(Vertices|Edges|Triangles|Quadrilaterals|Tetrahedra|Prisms|Pyramids|Hexahedra|Hexaedra|End|Dimension)\b")


def after_num(p, x):
    return MEDITKEY.match(x) and (p is None or not MEDITKEY.match(p))


@rule("medit", "comment")
def _(t, r):
    return put(t, r, lambda r: [r.choice(["# a comment", "#", "# Vertices"])], lambda p, x: MEDITKEY.match(x), p=0.5)


@rule("medit", "blank")
def _(t, r):
    return put(t, r, lambda r: [r.choice(["", "  "])], lambda p, x: MEDITKEY.match(x), p=0.5)


@rule("medit", "spaces")
def _(t, r):
    return respace(t, r, lambda x: x.startswith("#"))


@rule("medit", "numbers")
def _(t, r):
    return numbers(t, r, lambda x: x.startswith("#") or "Version" in x)


@rule("medit", "dimension")
def _(t, r):
    if re.search(r"(?m)^\s*Dimension\s+\d", t):
        return re.sub(r"(?m)^(\s*Dimension)[ \t]+(\d)", r"\1\n\2", t)
    return None


@rule("medit", "keyword")
def _(t, r):
    return t.replace("Hexahedra", "Hexaedra") if "Hexahedra" in t else None


@rule("medit", "others")
def _(t, r):
    """sections that say nothing about points and cells"""
    more = [["Corners", "2", "1", "2"], ["RequiredVertices", "2", "1", "2"], ["Normals", "1", "NRM"], ["Ridges", "1", "1"],
            ["NormalAtVertices", "2", "1 1", "2 1"], ["Identifier", '"a name"'], ["Geometry", '"a.mesh"'], ["SubDomainFromMesh", "1", "3 1 1 0"],
            ["VertexOnGeometricVertex", "1", "1 1"], ["EdgeOnGeometricEdge", "1", "1 1"]]
    m = re.search(r"Dimension\s+(\d)", t)
    nrm = " ".join(["0.5"] * int(m.group(1)))
    return put(t, r, lambda r: [nrm if y == "NRM" else y for y in r.choice(more)],
               lambda p, x: MEDITKEY.match(x) and "Vertices" not in x and "Dimension" not in x, p=0.5)


@rule("medit", "wrap")
def _(t, r):
    """the numbers of a section with other line breaks"""
    out, buf, first = [], [], False

    def flush():
        w = list(buf)
        buf.clear()
        while w:
            k = r.randrange(1, 9)
            out.append(" ".join(w[:k]))
            w[:k] = []
    for x in lines(t):
        if MEDITKEY.match(x) or "Mesh" in x or x.startswith("#") or not x.strip():
            flush()
            first = bool(MEDITKEY.match(x))
            out.append(x)
        elif first:
            out.append(x)
            first = False
        else:
            buf += x.split()
    flush()
    return "\n".join(out)


@rule("medit", "order")
def _(t, r):
    """cells before the vertices, and in another order of their own types"""
    ls = lines(t)
    secs, cur = [], []
    for x in ls:
        if MEDITKEY.match(x) and not re.match(r"\s*Dimension", x):
            secs.append(cur)
            cur = []
        cur.append(x)
    secs.append(cur)
    if len(secs) < 4:
        return None
    head, body, end = secs[0], secs[1:-1], secs[-1]
    if not end or "End" not in end[0]:
        return None
    v = [s for s in body if "Vertices" in s[0]]
    c = [s for s in body if "Vertices" not in s[0]]
    k = r.randrange(1, len(c) + 1)
    return "\n".join(x for s in [head] + c[:k] + v + c[k:] + [end] for x in s)


# ---- SU2 ----------------------------------------------------------------------
SU2KEY = re.compile(r"\s*(NDIME|NELEM|NPOIN|NMARK|MARKER_TAG|MARKER_ELEMS)\s*=")


@rule("su2", "comment")
def _(t, r):
    return put(t, r, lambda r: [r.choice(["% a comment", "%", "% NPOIN= 4"])], lambda p, x: SU2KEY.match(x), p=0.5)


@rule("su2", "blank")
def _(t, r):
    return put(t, r, lambda r: [r.choice(["", "  "])], lambda p, x: SU2KEY.match(x), p=0.5)


@rule("su2", "spaces")
def _(t, r):
    u = re.sub(r"(?m)^(\s*[A-Z_]+)\s*=\s*", lambda m: m.group(1) + r.choice(["=", " = ", "= ", "=   "]), t)
    return respace(u, r, lambda x: x.startswith("%"))


@rule("su2", "numbers")
def _(t, r):
    return numbers(t, r, lambda x: x.startswith("%"))


def su2_sections(t):
    out = [["", []]]
    for x in lines(t):
        if SU2KEY.match(x):
            out.append([x, []])
        else:
            out[-1][1].append(x)
    return out


@rule("su2", "indices")
def _(t, r):
    """running numbers at the end of elements and points, as SU2 itself writes"""
    s = su2_sections(t)
    which = r.choice(["NELEM", "NPOIN", "both"])
    for h, d in s:
        if which != "both" and which not in h:
            continue
        if "NELEM" in h or "NPOIN" in h:
            n = 0
            for i, x in enumerate(d):
                if x.strip() and not x.startswith("%"):
                    d[i] = f"{x.rstrip()} {n}"
                    n += 1
    return "\n".join(y for h, d in s for y in ([h] if h else []) + d)


@rule("su2", "order")
def _(t, r):
    """elements before points"""
    s = su2_sections(t)
    k = [i for i, (h, d) in enumerate(s) if "NELEM" in h]
    q = [i for i, (h, d) in enumerate(s) if "NPOIN" in h]
    if len(k) != 1 or len(q) != 1:
        return None
    s[k[0]], s[q[0]] = s[q[0]], s[k[0]]
    return "\n".join(y for h, d in s for y in ([h] if h else []) + d)


@rule("su2", "npoin")
def _(t, r):
    """NPOIN with the number of points without ghosts"""
    return re.sub(r"(?m)^(\s*NPOIN\s*=\s*)(\d+)[ \t]*$", r"\1\2 \2", t)


# ---- Netgen -------------------------------------------------------------------
NETKEY = re.compile(r"\s*(dimension|geomtype|surfaceelements\w*|volumeelements|edgesegments\w*|points|pointelements|endmesh|materials|bcnames|cd2names|cd3names|identifications|identificationtypes|face_colours)\s*$")


@rule("netgen", "comment")
def _(t, r):
    return put(t, r, lambda r: [r.choice(["# a comment", "#"])], lambda p, x: NETKEY.match(x), p=0.4)


@rule("netgen", "blank")
def _(t, r):
    return put(t, r, lambda r: [r.choice(["", "  "])], lambda p, x: NETKEY.match(x), p=0.4)


@rule("netgen", "spaces")
def _(t, r):
    return respace(t, r, lambda x: x.startswith("#") or NETKEY.match(x), tabs=False)


@rule("netgen", "numbers")
def _(t, r):
    return numbers(t, r, lambda x: x.startswith("#"))


@rule("netgen", "others")
def _(t, r):
    more = [["singular_points", "1", "1 1"], ["singular_edge_left", "0"], ["singular_edge_right", "0"], ["singular_face_inside", "0"],
            ["face_colours", "1", "1 0.5 0.5 0.5"]]
    return put(t, r, lambda r: [""] + r.choice(more) + [""], lambda p, x: NETKEY.match(x) and not re.match(r"\s*(dimension|geomtype)", x), p=0.4)


@rule("netgen", "keyword")
def _(t, r):
    """the older names of sections with the same leading columns"""
    u = t.replace("edgesegmentsgi2", r.choice(["edgesegmentsgi", "edgesegments"]))
    if r.random() < 0.7:
        u = re.sub(r"(?m)^surfaceelements$", r.choice(["surfaceelementsgi", "surfaceelementsuv"]), u)
    return u if u != t else None


@rule("netgen", "order")
def _(t, r):
    """points before the cells"""
    ls = lines(t)
    i = next((i for i, x in enumerate(ls) if x.strip() == "points"), None)
    j = next((i for i, x in enumerate(ls) if NETKEY.match(x) and x.strip().startswith(("surface", "volume", "edge", "pointel"))), None)
    if i is None or j is None or j > i:
        return None
    n = int(ls[i + 1])
    while j > 0 and (ls[j - 1].startswith("#")):
        j -= 1
    p = ls[i:i + 2 + n]
    rest = ls[:i] + ls[i + 2 + n:]
    return "\n".join(rest[:j] + p + [""] + rest[j:])


# ---- Tecplot ------------------------------------------------------------------
@rule("tecplot", "comment")
def _(t, r):
    return put(t, r, lambda r: [r.choice(["# a comment", "#", "# ZONE"])], p=0.25)


@rule("tecplot", "spaces")
def _(t, r):
    return respace(t, r, lambda x: x.startswith("#") or x.upper().startswith("TITLE"))


@rule("tecplot", "numbers")
def _(t, r):
    return numbers(t, r, lambda x: not is_num(x))


def tec_parts(t):
    """head lines, names of the variables, zone entries, remaining words"""
    ls = [x for x in lines(t) if not x.strip().startswith("#")]
    head = []
    i = 0
    while not ls[i].strip().upper().startswith("VARIABLES"):
        head.append(ls[i])
        i += 1
    v = ls[i].split("=", 1)[1]
    i += 1
    while not ls[i].strip().upper().startswith("ZONE"):
        v += " " + ls[i]
        i += 1
    names = re.findall(r'"([^"]*)"', v) or v.replace(",", " ").split()
    z = ls[i].strip()[4:]
    i += 1
    while i < len(ls) and not is_num(ls[i]):
        z += " " + ls[i]
        i += 1
    loc = re.search(r"VARLOCATION\s*=\s*\((.*?)\)", z, re.I)
    zone = {}
    if loc:
        z = z[:loc.start()] + z[loc.end():]
    ti = re.search(r'T\s*=\s*"[^"]*"', z)
    if ti:
        z = z[:ti.start()] + z[ti.end():]
    for k, val in re.findall(r"(\w+)\s*=\s*([\w.]+)", z):
        zone[k.upper()] = val.upper()
    words = " ".join(ls[i:]).split()
    cell = [False] * len(names)
    if loc:
        for rng, what in re.findall(r"\[([^\]]*)\]\s*=\s*(\w+)", loc.group(1)):
            for q in rng.split(","):
                a, _, b = q.partition("-")
                for k in range(int(a), int(b or a) + 1):
                    cell[k - 1] = what.upper() == "CELLCENTERED"
    return head, names, zone, cell, words


def tec_data(t):
    head, names, zone, cell, w = tec_parts(t)
    nn = int(zone.get("NODES") or zone.get("N"))
    ne = int(zone.get("ELEMENTS") or zone.get("E"))
    fmt = zone.get("DATAPACKING") or zone.get("F", "").replace("FE", "")
    typ = (zone.get("ZONETYPE") or zone.get("ET", "")).replace("FE", "")
    if fmt == "POINT":
        cols = [[w[i * len(names) + k] for i in range(nn)] for k in range(len(names))]
        w = w[nn * len(names):]
    else:
        cols = []
        for c in cell:
            n = ne if c else nn
            cols.append(w[:n])
            w = w[n:]
    k = len(w) // ne
    return head, names, cell, nn, ne, fmt, typ, cols, [w[i * k:i * k + k] for i in range(ne)]


def tec_write(r, head, names, cell, nn, ne, fmt, typ, cols, conn, old=False, split=False):
    q = ['"%s"' % n for n in names]
    out = list(head)
    if split:
        out += ["VARIABLES = " + q[0]] + q[1:]
    else:
        out.append("VARIABLES = " + r.choice([", ", " ", ","]).join(q))
    locs = ""
    if any(cell):
        groups = []
        k = 0
        while k < len(cell):
            e = k
            while e + 1 < len(cell) and cell[e + 1] == cell[k]:
                e += 1
            if cell[k] or chance(r, 0.3):
                groups.append("[%s] = %s" % (k + 1 if e == k else f"{k + 1}-{e + 1}", "CELLCENTERED" if cell[k] else "NODAL"))
            k = e + 1
        locs = "VARLOCATION = (" + ", ".join(groups) + ")"
    if old and not any(cell):
        z = [f"N={nn}", f"E={ne}", f"F=FE{fmt}", "ET=" + typ]
    else:
        z = [f"NODES={nn}", f"ELEMENTS={ne}", f"DATAPACKING={fmt}", f"ZONETYPE=FE{typ}"]
        if locs:
            z.append(locs)
    if chance(r, 0.5):
        z.insert(0, 'T = "zone one, with = signs"')
    r.shuffle(z)
    if split:
        k = r.randrange(1, len(z))
        out += ["ZONE " + ", ".join(z[:k]), ", ".join(z[k:])]
    else:
        out.append("ZONE " + ", ".join(z))
    if fmt == "POINT":
        out += [" ".join(c[i] for c in cols) for i in range(nn)]
    else:
        for c in cols:
            k = r.randrange(1, 9)
            out += [" ".join(c[i:i + k]) for i in range(0, len(c), k)]
    out += [" ".join(c) for c in conn]
    return "\n".join(out) + "\n"


@rule("tecplot", "wrap")
def _(t, r):
    return tec_write(r, *tec_data(t))


@rule("tecplot", "old")
def _(t, r):
    return tec_write(r, *tec_data(t), old=True)


@rule("tecplot", "lines")
def _(t, r):
    return tec_write(r, *tec_data(t), split=True)


@rule("tecplot", "point")
def _(t, r):
    d = list(tec_data(t))
    if any(d[2]):
        return None
    d[5] = "POINT"
    return tec_write(r, *d, old=chance(r, 0.5))


@rule("tecplot", "case")
def _(t, r):
    f = r.choice([str.lower, str.title])
    return re.sub(r"(?m)^(TITLE|VARIABLES|ZONE)\b", lambda m: f(m.group()), t)


# ---- PERMAS -------------------------------------------------------------------
@rule("permas", "comment")
def _(t, r):
    return put(t, r, lambda r: [r.choice(["! a comment", "!", "!$COOR"])], lambda p, x: p is None or not p.rstrip().endswith("!") or p.startswith("!"), p=0.2)


@rule("permas", "spaces")
def _(t, r):
    return respace(t, r, lambda x: x.startswith(("!", "$")), tabs=False)


@rule("permas", "numbers")
def _(t, r):
    return numbers(t, r, lambda x: x.startswith(("!", "$")))


@rule("permas", "case")
def _(t, r):
    return re.sub(r"(?m)^\$.*$", lambda m: m.group().lower(), t)


@rule("permas", "others")
def _(t, r):
    return put(t, r, lambda r: r.choice([["$MATERIAL NAME=M1 TYPE=ISO"], ["$GEODAT SHELL CONT=THICK", "1 0.5"]]),
               lambda p, x: x.startswith("$END STRUCTURE"), p=1)


@rule("permas", "renumber")
def _(t, r):
    ls = lines(t)
    pts, sec = [], ""
    for x in ls:
        if x.startswith("$"):
            sec = x.upper()
        elif sec.startswith("$COOR") and x.strip() and not x.startswith("!"):
            pts.append(x.split()[0])
    node = dict(zip(pts, map(str, newids(len(pts), r))))
    out, sec, go, eid = [], "", False, 0
    for x in ls:
        if x.startswith("$"):
            sec = x.upper()
        elif x.strip() and not x.startswith("!"):
            w = x.split()
            if sec.startswith("$COOR"):
                x = " ".join([node[w[0]]] + w[1:])
            elif sec.startswith("$ELEMENT"):
                more = w[-1] == "!"
                if more:
                    w = w[:-1]
                eid += r.randrange(1, 4)
                x = " ".join(([str(eid)] + [node[y] for y in w[1:]])) + (" !" if more else "")
                if go:
                    return None
                go = more
        out.append(x)
    return "\n".join(out)


# ---- WKT ----------------------------------------------------------------------
@rule("wkt", "case")
def _(t, r):
    return re.sub(r"TIN|Z", lambda m: r.choice([m.group().lower(), m.group().title()]), t)


@rule("wkt", "spaces")
def _(t, r):
    u = re.sub(r",\s*", lambda m: r.choice([",", ", ", ",  ", ",\n"]), t)
    u = re.sub(r"\(\s*", lambda m: r.choice(["(", "( ", "(  "]), u)
    return re.sub(r"\s*\)", lambda m: r.choice([")", " )"]), u)


@rule("wkt", "numbers")
def _(t, r):
    return numbers(t, r)


# ---- Nastran ------------------------------------------------------------------
@rule("nastran", "comment")
def _(t, r):
    return put(t, r, lambda r: [r.choice(["$ a comment", "$GRID,1,2,3", "$ ENDDATA"])], p=0.2)


@rule("nastran", "blank")
def _(t, r):
    return put(t, r, lambda r: [r.choice(["", "  "])], p=0.2)


@rule("nastran", "executive")
def _(t, r):
    """executive and case control sections in front of the bulk data"""
    return "SOL 101\nCEND\nTITLE = A MODEL\nSUBCASE 1\n  LOAD = 1\n" + t


def nas_cards(t):
    """(fields of the cards after BEGIN BULK, head lines); fields as strings, 8 to a line"""
    ls = lines(t)
    i = next(k for k, x in enumerate(ls) if x.strip().startswith("BEGIN BULK"))
    cards = []
    for x in ls[i + 1:]:
        x = x.rstrip()
        if not x or x.startswith("$"):
            continue
        if x.startswith("ENDDATA"):
            break
        if "," in x:
            w = x.split(",")
            cont = w[0].strip() in ("", "+", "*") or w[0].startswith(("+", "*"))
            f = [y.strip() for y in w[1:9]]
            f += [""] * (8 - len(f))
            if cont:
                cards[-1][1].extend(f)
            else:
                cards.append([w[0].strip().rstrip("*"), f])
        else:
            x = x.ljust(80)
            key = x[:8].strip()
            if key.endswith("*") and key != "*":
                cards.append([key[:-1], [x[8 + 16 * k:24 + 16 * k].strip() for k in range(4)]])
            elif key.startswith("*"):
                cards[-1][1].extend(x[8 + 16 * k:24 + 16 * k].strip() for k in range(4))
            elif key.startswith("+") or key == "":
                cards[-1][1].extend(x[8 + 8 * k:16 + 8 * k].strip() for k in range(8))
            else:
                cards.append([key, [x[8 + 8 * k:16 + 8 * k].strip() for k in range(8)]])
    for c in cards:
        while c[1] and c[1][-1] == "":
            c[1].pop()
    return ls[:i + 1], cards


def nas_write(head, cards, form, r):
    out = list(head)
    for key, f in cards:
        if form == "free":
            n = 8
            rows = [f[i:i + n] for i in range(0, len(f), n)]
            for k, row in enumerate(rows):
                more = k + 1 < len(rows)
                out.append(",".join([key if k == 0 else "+"] + row + ([""] * (8 - len(row)) + ["+"] if more else [])))
        elif form == "small":
            rows = [f[i:i + 8] for i in range(0, len(f), 8)]
            style = r.choice(["+", "auto", "named"])
            for k, row in enumerate(rows):
                more = k + 1 < len(rows)
                a = key if k == 0 else {"+": "+", "auto": "", "named": f"+C{k - 1}"}[style]
                b = {"+": "+", "auto": "        ", "named": f"+C{k}"}[style] if more else ""
                out.append(a.ljust(8) + "".join(y.ljust(8) for y in row).ljust(64 if more else 0) + b)
        else:
            rows = [f[i:i + 4] for i in range(0, len(f), 4)]
            if len(rows) % 2:
                rows.append([])
            for k, row in enumerate(rows):
                out.append(((key + "*") if k == 0 else "*").ljust(8) + "".join(y.ljust(16) for y in row))
        out[-1] = out[-1].rstrip() if r.random() < 0.5 and form != "small" else out[-1]
    return "\n".join(out + ["ENDDATA", ""])


@rule("nastran", "free")
def _(t, r):
    return nas_write(*nas_cards(t), "free", r)


@rule("nastran", "large")
def _(t, r):
    return nas_write(*nas_cards(t), "large", r)


@rule("nastran", "small")
def _(t, r):
    """each card in any of the three forms"""
    h, c = nas_cards(t)
    out = list(h)
    for x in c:
        forms = ["free", "large"] + (["small"] * 4 if all(len(y) <= 8 for y in x[1]) else [])
        out += nas_write([], [x], r.choice(forms), r).split("\n")[:-2]
    return "\n".join(out + ["ENDDATA", ""])


@rule("nastran", "numbers")
def _(t, r):
    """reals without the E, with a D or with E+00"""
    h, c = nas_cards(t)
    for key, f in c:
        if key == "GRID":
            for i, y in enumerate(f):
                if i >= 2 and y:
                    v = float(re.sub(r"(?<=[\d.])([+-]\d+)$", r"e\1", y.replace("D", "E")))
                    s = r.choice([repr(v).replace("e", "E") if "." in repr(v) else y, re.sub(r"[eE]([+-])", r"\1", y) if re.search(r"[eE][+-]", y) else y, y.replace("E", "D"),
                                  y.replace("E", "e")])
                    if len(s) <= 16:
                        f[i] = s
    return nas_write(h, c, r.choice(["free", "large"]), r)


@rule("nastran", "renumber")
def _(t, r):
    h, c = nas_cards(t)
    pts = [f[0] for key, f in c if key == "GRID"]
    node = dict(zip(pts, map(str, newids(len(pts), r))))
    eid = iter(newids(len(c), r, "gap"))
    for key, f in c:
        if key == "GRID":
            f[0] = node[f[0]]
        else:
            f[0] = str(next(eid))
            for i in range(2, len(f)):
                if f[i]:
                    f[i] = node[f[i]]
    return nas_write(h, c, r.choice(["free", "large"]), r)


@rule("nastran", "others")
def _(t, r):
    return put(t, r, lambda r: [r.choice(["PSHELL,1,1,0.1", "MAT1    1       2.1+11          0.3", "PSOLID,1,1", "FORCE,1,1,0,1.0,0.,0.,1."])],
               lambda p, x: re.match(r"GRID|C[A-Z]|ENDDATA", x), p=0.2)


@rule("nastran", "order")
def _(t, r):
    """elements before grid points"""
    h, c = nas_cards(t)
    g = [x for x in c if x[0] == "GRID"]
    e = [x for x in c if x[0] != "GRID"]
    return nas_write(h, e + g, r.choice(["free", "large"]), r)


# ---- STL ----------------------------------------------------------------------
@rule("stl", "spaces")
def _(t, r):
    def f(x):
        y = re.sub(r"(?<=[\d.])[ \t]+(?=[-+\d.])", lambda m: blanks(r), x.strip())
        return (blanks(r) if chance(r, 0.5) else "") + y + (blanks(r) if chance(r, 0.3) else "")
    return "\n".join(f(x) if x.strip() else x for x in lines(t))


@rule("stl", "numbers")
def _(t, r):
    return numbers(t, r)


@rule("stl", "name")
def _(t, r):
    return re.sub(r"(?m)^(solid|endsolid)\b.*$", r"\1 some part 7", t)


@rule("stl", "blank")
def _(t, r):
    return put(t, r, lambda r: [r.choice(["", "  "])], lambda p, x: p is not None, p=0.2)


# ---- Gmsh ---------------------------------------------------------------------
GM = "gmsh22 gmsh40 gmsh41"


@rule(GM, "comment")
def _(t, r):
    """a $Comments section (or any other the reader does not know)"""
    return put(t, r, lambda r: r.choice([["$Comments", "a comment", "$EndComments"], ["$Comments", "1 2 3", "", "$EndComments"]]),
               lambda p, x: p is not None and re.match(r"\$(?!End)", x), p=0.4)


@rule(GM, "blank")
def _(t, r):
    return put(t, r, lambda r: [r.choice(["", "  "])], lambda p, x: p is not None and re.match(r"\$(?!End)", x), p=0.4)


@rule(GM, "spaces")
def _(t, r):
    return respace(t, r, lambda x: x.startswith("$") or '"' in x or "Affine" in x, tabs=False, lead=False)


@rule(GM, "numbers")
def _(t, r):
    return numbers(t, r, lambda x: x.startswith("$") or '"' in x or re.match(r"\s*[24]\.[012]\s+[01]\s+[48]", x))


def gm_sections(t):
    out, cur = [], []
    for x in lines(t):
        cur.append(x)
        if x.startswith("$End"):
            out.append(cur)
            cur = []
    return out, cur


def gm_name(s):
    return next((x[1:].strip() for x in s if x.startswith("$")), "")


@rule(GM, "order")
def _(t, r):
    """data and periodicity in another order after the elements; names later"""
    s, rest = gm_sections(t)
    k = next((i for i, x in enumerate(s) if gm_name(x) == "Elements"), None)
    if k is None or len(s) - k < 3:
        return None
    a, b = s[:k + 1], s[k + 1:]
    names = [gm_name(x) for x in b]
    # arrays of one kind keep their order: only the kinds are mixed
    kinds = sorted(set(names), reverse=chance(r, 0.5))
    b2 = [x for q in kinds for x in b if gm_name(x) == q]
    if b2 == b:
        return None
    return "\n".join(y for x in a + b2 + [rest] for y in x)


@rule("gmsh22", "renumber")
def _(t, r):
    s, rest = gm_sections(t)
    node, el = {}, {}
    for x in s:
        n = gm_name(x)
        i = next(k for k, y in enumerate(x) if y.startswith("$"))
        if n == "Nodes":
            d = x[i + 2:-1]
            ids = newids(len(d), r)
            node = {y.split()[0]: str(v) for y, v in zip(d, ids)}
            x[i + 2:-1] = [" ".join([node[w[0]]] + w[1:]) for y in d for w in [y.split()]]
        elif n == "Elements":
            d = x[i + 2:-1]
            el = {y.split()[0]: str(v) for y, v in zip(d, newids(len(d), r, "gap"))}
            new = []
            for y in d:
                w = y.split()
                k = 3 + int(w[2])
                new.append(" ".join([el[w[0]]] + w[1:k] + [node[z] for z in w[k:]]))
            x[i + 2:-1] = new
        elif n in ("NodeData", "ElementData"):
            m = node if n == "NodeData" else el
            j = i + 1
            for _ in range(3):
                j += 1 + int(x[j])
            for k in range(j, len(x) - 1):
                w = x[k].split()
                x[k] = " ".join([m[w[0]]] + w[1:])
        elif n == "Periodic":
            j = i + 2
            for _ in range(int(x[i + 1])):
                j += 1
                if "Affine" in x[j]:
                    j += 1
                c = int(x[j])
                for k in range(j + 1, j + 1 + c):
                    x[k] = " ".join(node[z] for z in x[k].split())
                j += 1 + c
    return "\n".join(y for x in s + [rest] for y in x)


@rule("gmsh41", "renumber")
def _(t, r):
    s, rest = gm_sections(t)
    node, el = {}, {}
    for x in s:
        n = gm_name(x)
        i = next(k for k, y in enumerate(x) if y.startswith("$"))
        if n == "Nodes":
            nb, nn = map(int, x[i + 1].split()[:2])
            ids = newids(nn, r)
            j, q = i + 2, 0
            for _ in range(nb):
                c = int(x[j].split()[3])
                for k in range(j + 1, j + 1 + c):
                    node[x[k].strip()] = str(ids[q])
                    x[k] = str(ids[q])
                    q += 1
                j += 1 + 2 * c
            x[i + 1] = f"{nb} {nn} {min(ids)} {max(ids)}"
        elif n == "Elements":
            nb, ne = map(int, x[i + 1].split()[:2])
            ids = newids(ne, r, "gap")
            j, q = i + 2, 0
            for _ in range(nb):
                c = int(x[j].split()[3])
                for k in range(j + 1, j + 1 + c):
                    w = x[k].split()
                    el[w[0]] = str(ids[q])
                    x[k] = " ".join([str(ids[q])] + [node[z] for z in w[1:]])
                    q += 1
                j += 1 + c
            x[i + 1] = f"{nb} {ne} {min(ids)} {max(ids)}" if ids else x[i + 1]
        elif n in ("NodeData", "ElementData"):
            m = node if n == "NodeData" else el
            j = i + 1
            for _ in range(3):
                j += 1 + int(x[j])
            for k in range(j, len(x) - 1):
                w = x[k].split()
                x[k] = " ".join([m[w[0]]] + w[1:])
        elif n == "Periodic":
            j = i + 2
            for _ in range(int(x[i + 1])):
                j += 2                          # dim tag master; number of affine values, values
                c = int(x[j])
                for k in range(j + 1, j + 1 + c):
                    x[k] = " ".join(node[z] for z in x[k].split())
                j += 1 + c
    return "\n".join(y for x in s + [rest] for y in x)


@rule(GM, "tags")
def _(t, r):
    """data sections with a time other than 0 and with further integer tags"""
    s, rest = gm_sections(t)
    n = 0
    for x in s:
        if gm_name(x) in ("NodeData", "ElementData"):
            i = next(k for k, y in enumerate(x) if y.startswith("$"))
            j = i + 1
            j += 1 + int(x[j])
            if int(x[j]) == 1:
                x[j + 1] = "2.5"
                n += 1
            j += 1 + int(x[j])
            if int(x[j]) == 3:
                x[j] = "4"
                x.insert(j + 4, "0")
                n += 1
    return "\n".join(y for x in s + [rest] for y in x) if n else None


# ---- PLY ----------------------------------------------------------------------
def ply_head(t):
    i = t.index("end_header\n") + len("end_header\n")
    return t[:i], t[i:]


@rule("ply", "comment")
def _(t, r):
    h, b = ply_head(t)
    u = put(h, r, lambda r: [r.choice(["comment made by hand", "comment element vertex 3"])],
            lambda p, x: p is not None and p != "ply" and x != "", p=0.3)
    return u and u + b


@rule("ply", "info")
def _(t, r):
    h, b = ply_head(t)
    u = put(h, r, lambda r: ["obj_info num_cols 512"], lambda p, x: x.startswith("element"), p=0.5)
    return u and u + b


@rule("ply", "keyword")
def _(t, r):
    """the other names of the number types, and of the list of vertices"""
    h, b = ply_head(t)
    pairs = [("int8", "char"), ("uint8", "uchar"), ("int16", "short"), ("uint16", "ushort"), ("int32", "int"), ("uint32", "uint"), ("float32", "float"), ("float64", "double")]
    d = {}
    for x, y in pairs:
        d[x], d[y] = y, x
    out = []
    for x in lines(h):
        if x.startswith("property"):
            w = x.split()
            w = [d.get(y, y) if chance(r, 0.6) and k < len(w) - 1 else y for k, y in enumerate(w)]
            if w[-1] == "vertex_indices" and chance(r, 0.5):
                w[-1] = "vertex_index"
            x = " ".join(w)
        out.append(x)
    return "\n".join(out) + b


@rule("ply", "spaces")
def _(t, r):
    h, b = ply_head(t)
    return h + respace(b, r)


@rule("ply", "numbers")
def _(t, r):
    h, b = ply_head(t)
    b = numbers(b, r)
    return h + b if b else None


@rule("ply", "columns")
def _(t, r):
    """the properties of the vertices in another order"""
    h, b = ply_head(t)
    ls = lines(h)
    i = next(k for k, x in enumerate(ls) if x.startswith("element vertex"))
    n = int(ls[i].split()[2])
    j = i + 1
    while ls[j].startswith("property"):
        j += 1
    props = ls[i + 1:j]
    k = len(props)
    data = [x for x in lines(b)]
    rows = [data[q].split() for q in range(n)]
    if any(len(x) != k for x in rows):
        return None
    # coordinates keep their order among themselves and the data too
    xyz = [q for q in range(k) if props[q].split()[-1] in ("x", "y", "z")]
    oth = [q for q in range(k) if q not in xyz]
    if not oth:
        return None
    perm = oth + xyz
    ls[i + 1:j] = [props[q] for q in perm]
    data[:n] = [" ".join(x[q] for q in perm) for x in rows]
    return "\n".join(ls) + "\n".join(data)


# ---- MDPA ---------------------------------------------------------------------
@rule("mdpa", "comment")
def _(t, r):
    return put(t, r, lambda r: [r.choice(["// a comment", "//", "// Begin Nodes"])], lambda p, x: re.match(r"\s*Begin|\s*\d", x), p=0.3)


@rule("mdpa", "blank")
def _(t, r):
    return put(t, r, lambda r: [r.choice(["", "  "])], lambda p, x: re.match(r"\s*(Begin|End)|\s*\d", x), p=0.3)


@rule("mdpa", "spaces")
def _(t, r):
    return respace(t, r, lambda x: not is_num(x))


@rule("mdpa", "indent")
def _(t, r):
    return "\n".join(r.choice(["", "  ", "\t"]) + x if re.match(r"(Begin|End)", x) else x for x in lines(t))


@rule("mdpa", "numbers")
def _(t, r):
    return numbers(t, r, lambda x: not is_num(x))


@rule("mdpa", "renumber")
def _(t, r):
    ls = lines(t)
    sec, node = "", {}
    idx = []
    for k, x in enumerate(ls):
        w = x.split()
        if w[:1] == ["Begin"]:
            sec = w[1]
        elif w[:1] == ["End"]:
            sec = ""
        elif w and sec == "Nodes" and is_num(x):
            idx.append(k)
    for k, v in zip(idx, newids(len(idx), r)):
        w = ls[k].split()
        node[w[0]] = str(v)
        ls[k] = " ".join([str(v)] + w[1:])
    eid = 0
    for k, x in enumerate(ls):
        w = x.split()
        if w[:1] == ["Begin"]:
            sec = w[1]
        elif w[:1] == ["End"]:
            sec = ""
        elif w and is_num(x):
            if sec in ("Elements", "Conditions"):
                eid += r.randrange(1, 4)
                ls[k] = " ".join([str(eid), w[1]] + [node[y] for y in w[2:]])
            elif sec == "NodalData":
                ls[k] = " ".join([node[w[0]]] + w[1:])
            elif sec == "ElementalData":
                return None
    return "\n".join(ls)


@rule("mdpa", "others")
def _(t, r):
    more = [["Begin SubModelPart Inlet", "  Begin SubModelPartNodes", "    1", "    2", "  End SubModelPartNodes", "End SubModelPart"],
            ["Begin Table 1 TIME X", " 0.0 1.0", " 1.0 2.0", "End Table"]]
    return put(t, r, lambda r: r.choice(more), lambda p, x: re.match(r"Begin (Nodes|Elements|NodalData)", x), p=0.3)


@rule("mdpa", "conditions")
def _(t, r):
    u = re.sub(r"Begin Elements (\w+)((?:.|\n)*?)End Elements", lambda m: f"Begin Conditions {m.group(1)}{m.group(2)}End Conditions", t, count=r.randrange(1, 3))
    return u if u != t else None


# ---- Ansys --------------------------------------------------------------------
@rule("ansys", "comment")
def _(t, r):
    return put(t, r, lambda r: [r.choice(['(0 "a comment")', '(0 "cells:")'])], lambda p, x: p is not None and re.match(r"\((10|12|2)\b", x), p=0.5)


@rule("ansys", "blank")
def _(t, r):
    return put(t, r, lambda r: [r.choice(["", "  "])], lambda p, x: p is not None and (re.match(r"\((10|12|2)\b", x) or is_num(x)), p=0.3)


@rule("ansys", "spaces")
def _(t, r):
    return respace(t, r, lambda x: x.startswith(("(", ")")))


@rule("ansys", "numbers")
def _(t, r):
    return numbers(t, r, lambda x: "(" in x)


@rule("ansys", "others")
def _(t, r):
    more = ["(45 (1 fluid fluid-1)())", "(39 (2 wall wall-1)())", "(37 ((a 1)(b 2)))"]
    return put(t, r, lambda r: [r.choice(more)], lambda p, x: p is not None and re.match(r"\((10|12)\b", x), p=0.4)


@rule("ansys", "paren")
def _(t, r):
    """the parenthesis that opens the data on a line of its own"""
    u = re.sub(r"(?m)^(\((?:10|12) \([^)]*\))\s*\($", r"\1\n(", t)
    return u if u != t else None


# ---- XML ----------------------------------------------------------------------
XML = "dolfin-xml vtu vtub xdmf xdmfh"


@rule(XML, "comment")
def _(t, r):
    return re.sub(r">\s*\n(\s*)(?=<[A-Za-z])", lambda m: m.group() + (f"<!-- a comment -->\n{m.group(1)}" if chance(r, 0.3) else ""), t)


@rule(XML, "attributes")
def _(t, r):
    """attributes in another order, with other quotes and spaces"""
    def f(m):
        a = re.findall(r'([\w:]+)\s*=\s*("[^"]*"|\'[^\']*\')', m.group(2))
        if not a:
            return m.group()
        r.shuffle(a)
        a = [(k, "'" + v[1:-1] + "'" if v[0] == '"' and "'" not in v and chance(r, 0.4) else v) for k, v in a]
        return "<" + m.group(1) + "".join(r.choice([" ", "  ", "\n  "]) + k + r.choice(["=", " = "]) + v for k, v in a) + r.choice(["", " "]) + m.group(3) + ">"
    return re.sub(r"<([A-Za-z][\w:]*)((?:\s+[\w:]+\s*=\s*(?:\"[^\"]*\"|'[^']*'))*)\s*(/?)>", f, t)


@rule(XML, "declaration")
def _(t, r):
    if t.lstrip().startswith("<?xml"):
        return re.sub(r"^\s*<\?xml.*?\?>", "<?xml version='1.0' encoding='UTF-8'?>\n<!-- made by hand -->", t, count=1)
    return '<?xml version="1.0"?>\n' + t


@rule(XML, "selfclose")
def _(t, r):
    u = re.sub(r"<([A-Za-z]\w*)([^<>]*?)\s*/>", lambda m: f"<{m.group(1)}{m.group(2)}></{m.group(1)}>" if chance(r, 0.5) else m.group(), t)
    return u if u != t else None


@rule("vtu xdmf", "wrap")
def _(t, r):
    """the numbers of an array with other line breaks and spaces"""
    def f(m):
        w = m.group(2).split()
        if not w or not all(re.fullmatch(r"[-+]?[\d.][\d.eE+-]*", x) for x in w):
            return m.group()
        out = []
        while w:
            k = r.randrange(1, 9)
            out.append(blanks(r).join(w[:k]))
            w = w[k:]
        return m.group(1) + "\n" + "\n".join(out) + "\n" + m.group(3)
    return re.sub(r"(<(?:DataArray|DataItem)\b[^>]*>)([^<]*)(</)", f, t)


@rule("vtu xdmf", "numbers")
def _(t, r):
    def f(m):
        return m.group(1) + (numbers(m.group(2), r) or m.group(2)) + m.group(3)
    return re.sub(r"(<(?:DataArray|DataItem)\b[^>]*>)([^<]*)(</)", f, t)


@rule("dolfin-xml", "order")
def _(t, r):
    """vertices and cells in any order: each has its number"""
    def f(m):
        e = re.findall(r"<(?:vertex|triangle|tetrahedron|entity)\b[^>]*?/>", m.group(2))
        if len(e) < 2:
            return m.group()
        r.shuffle(e)
        return m.group(1) + "\n" + "\n".join(e) + "\n" + m.group(3)
    return re.sub(r"(<(?:vertices|cells|mesh_function)\b[^>]*>)(.*?)(</)", f, t, flags=re.S)


@rule("vtu vtub", "order")
def _(t, r):
    """the parts of a piece in another order"""
    m = re.search(r"(<Piece\b[^>]*>)(.*)(</Piece>)", t, re.S)
    parts = re.findall(r"<(Points|Cells|PointData|CellData)\b.*?(?:</\1>|(?<=/)>)", m.group(2), re.S)
    blocks = [x.group() for x in re.finditer(r"<(Points|Cells|PointData|CellData)\b(?:[^>]*/>|.*?</\1>)", m.group(2), re.S)]
    if len(blocks) < 2:
        return None
    blocks = blocks[1:] + blocks[:1] if chance(r, 0.5) else blocks[::-1]
    return t[:m.start(2)] + "\n" + "\n".join(blocks) + "\n" + t[m.end(2):]


@rule("vtu vtub", "arrays")
def _(t, r):
    """connectivity, offsets and types in another order"""
    m = re.search(r"(<Cells>)(.*?)(</Cells>)", t, re.S)
    a = re.findall(r"<DataArray\b.*?</DataArray>", m.group(2), re.S)
    r.shuffle(a)
    return t[:m.start(2)] + "\n" + "\n".join(a) + "\n" + t[m.end(2):]


@rule("xdmf xdmfh", "keyword")
def _(t, r):
    """old and new spellings: NumberType or DataType, TopologyType or Type, GeometryType"""
    u = t
    if chance(r, 0.5):
        u = u.replace("TopologyType=", "Type=") if chance(r, 0.5) else u
    if chance(r, 0.5):
        u = u.replace("GeometryType=", "Type=")
    u = re.sub(r'TopologyType="(\w+)"', lambda m: 'TopologyType="%s"' % r.choice([m.group(1), m.group(1).upper(), m.group(1).lower()]), u)
    if chance(r, 0.5):
        u = u.replace("DataType=", "NumberType=")
    return u if u != t else None


# ---- legacy VTK ---------------------------------------------------------------
VT = "vtk51 vtk42"
VTKKEY = re.compile(r"\s*(DATASET|POINTS|CELLS|CELL_TYPES|OFFSETS|CONNECTIVITY|METADATA|POINT_DATA|CELL_DATA|SCALARS|VECTORS|TENSORS|LOOKUP_TABLE|FIELD|NORMALS)\b", re.I)


@rule(VT, "title")
def _(t, r):
    ls = lines(t)
    ls[1] = r.choice(["a title", "POINTS 3 float", ""]) if False else r.choice(["a title", "POINTS 3 float", "# 7"])
    return "\n".join(ls)


@rule(VT, "spaces")
def _(t, r):
    return respace(t, r, lambda x: not is_num(x), lead=True)


@rule(VT, "numbers")
def _(t, r):
    head, _, body = t.partition("ASCII\n")
    b = numbers(body, r, lambda x: not is_num(x))
    return head + "ASCII\n" + b if b else None


@rule(VT, "blank")
def _(t, r):
    head, _, body = t.partition("ASCII\n")
    u = put(body, r, lambda r: [""], lambda p, x: re.match(r"(POINTS|CELLS|CELL_TYPES|POINT_DATA|CELL_DATA|SCALARS|VECTORS|TENSORS|FIELD)\b", x), p=0.5)
    return u and head + "ASCII\n" + u


@rule(VT, "case")
def _(t, r):
    """keywords are not case sensitive"""
    head, _, body = t.partition("ASCII\n")
    f = r.choice([str.lower, str.title])
    return head + "ASCII\n" + re.sub(r"(?m)^(DATASET|POINTS|CELLS|CELL_TYPES|OFFSETS|CONNECTIVITY|POINT_DATA|CELL_DATA|SCALARS|VECTORS|LOOKUP_TABLE|FIELD)\b",
                                     lambda m: f(m.group()) if chance(r, 0.5) else m.group(), body)


@rule(VT, "wrap")
def _(t, r):
    head, _, body = t.partition("ASCII\n")
    out, buf = [], []

    def flush():
        while buf:
            k = r.randrange(1, 9)
            out.append(" ".join(buf[:k]))
            del buf[:k]
    for x in lines(body):
        if is_num(x):
            buf += x.split()
        else:
            flush()
            out.append(x)
    flush()
    return head + "ASCII\n" + "\n".join(out)


@rule(VT, "metadata")
def _(t, r):
    """VTK itself writes METADATA after points and arrays"""
    ls = lines(t)
    out = []
    for i, x in enumerate(ls):
        if re.match(r"(CELLS|POINT_DATA|CELL_DATA)\b", x) and chance(r, 0.8):
            out += ["METADATA", "INFORMATION 0", ""]
        out.append(x)
    return "\n".join(out)


# ---- files that are not text ----------------------------------------------------
PATHS = {"exodus"}


@rule("exodus", "keyword")
def _(path, r):
    """the other names of the element types, in any case"""
    import netCDF4
    same = [["BEAM", "BEAM2", "BAR2"], ["SHELL", "SHELL4", "QUAD", "QUAD4"], ["TRI", "TRIANGLE", "TRI3"], ["HEX", "HEXAHEDRON", "HEX8"], ["TETRA", "TETRA4", "TET4"],
            ["SHELL8", "QUAD8"], ["SHELL9", "QUAD9"]]
    with netCDF4.Dataset(path, "a") as nc:
        for k, v in nc.variables.items():
            if k.startswith("connect"):
                t = v.elem_type.upper()
                t = r.choice(next((s for s in same if t in s), [t]))
                v.elem_type = r.choice([t, t.lower(), t.title()])


@rule("exodus", "info")
def _(path, r):
    """records that say nothing about the mesh"""
    import netCDF4
    import numpy as np
    with netCDF4.Dataset(path, "a") as nc:
        if "info_records" in nc.variables:
            return None
        nc.createDimension("num_info_x", 2)
        nc.createDimension("len_line_x", 81)
        v = nc.createVariable("info_records", "S1", ("num_info_x", "len_line_x"))
        v[:] = np.array([list("a note".ljust(81))] * 2, dtype="S1")


def vary(kind, names, text, r):
    """the text rewritten by each rule in turn; (text, names of the rules that did something)"""
    done = []
    for n in names:
        u = VARY[kind, n](text, r)
        if kind in PATHS:
            done.append(n)
            continue
        if u is not None and u != text:
            text = u
            done.append(n)
    return text, done


def rules(kind):
    return [n for k, n in VARY if k == kind]
