------------------------------- MODULE Formats -------------------------------
(***************************************************************************)
(* What each file format (and each variant of it) can hold, and what the   *)
(* library therefore promises to give back: the operator Load(F, m) is the *)
(* mesh that a reader must return for a file in which m was stored with    *)
(* format variant F.                                                       *)
(***************************************************************************)
EXTENDS Meshes

AnyNc  == {1, 2, 3, 6, 9}
AllDts == {"f8", "f4", "i8", "i4", "i2", "u1", "i1", "u2", "u4", "u8"}
Lin    == <<"vertex","line","triangle","quad","tetra","hexahedron","wedge","pyramid">>
VtkTypes == Lin \o <<"quad8","hexahedron20","hexahedron24","line3","triangle6","quad9","tetra10",
                     "hexahedron27","wedge15","wedge18","pyramid13","line4">>
XdmfTypes == Lin \o <<"quad8","hexahedron20","hexahedron24","line3","triangle6","quad9","tetra10",
                     "hexahedron27","wedge15","wedge18","pyramid13","hexahedron64","hexahedron125","hexahedron216","hexahedron343",
                     "hexahedron512","hexahedron729","hexahedron1000","hexahedron1331">>
GmshTypes == Lin \o <<"quad8","hexahedron20","line3","triangle6","quad9","tetra10",
                     "hexahedron27","wedge15","wedge18","pyramid13","pyramid14","line4","triangle10","quad16",
                     "tetra20","wedge40","hexahedron64","line5","triangle15","quad25","tetra35","wedge75",
                     "hexahedron125","line6","triangle21","quad36","tetra56","wedge126","hexahedron216",
                     "line7","triangle28","quad49","tetra84","line8","triangle36","quad64","tetra120",
                     "line9","triangle45","quad81","tetra165","line10","triangle55","quad100","tetra220",
                     "line11","triangle66","quad121","tetra286","hexahedron343","hexahedron512","hexahedron729","hexahedron1000",
                     "wedge196","wedge288","wedge405","wedge550">>

(***************************************************************************)
(* id     name of the variant                                              *)
(* fmt,rf format name for writing / reading; ext file suffix; kw keywords; *)
(*        via = "gmsh40" where the variant has its own entry point         *)
(* types  supported cell types;  open = further types on which we are      *)
(*        silent (neither promised nor refused)                            *)
(* d2     2-D points: "keep", "pad" (gain a zero z), "no" (not promised),  *)
(*        "only" (3-D points are not promised)                             *)
(* ord    cells: "seq" order of all cells kept, "type" order kept within   *)
(*        each type                                                        *)
(* dup    may a type occur in several blocks?                              *)
(* pdig   digits kept of coordinates (double), ddig of float data          *)
(* pnc,pdts / cnc,cdts  component counts and number types of point / cell  *)
(*        data the variant stores ({} = stores none)                       *)
(* keepdt does the number type come back?                                  *)
(* pad3   2-component arrays come back with a zero third component         *)
(* xpd,xcd,xfd  names the reader may add                                   *)
(* sp     may names contain spaces?                                        *)
(* pref,cref    name under which the one integer label per point / cell    *)
(*        comes back ("" = none);  pdef,cdef its default                   *)
(* shape  "" | "soup" | "tecplot" | "flac3d" | "gmsh41": special geometry  *)
(* setmode point sets / cell sets kept: "", "ps", "ps+cs", "cs"            *)
(***************************************************************************)
Base == [
  id |-> "", fmt |-> "", rf |-> "", ext |-> "", kw |-> [zz |-> 0], via |-> "",
  types |-> <<>>, open |-> {}, d2 |-> "pad", ord |-> "seq", dup |-> TRUE,
  pdig |-> 16, ddig |-> 16, pnc |-> {}, pdts |-> AllDts, cnc |-> {}, cdts |-> AllDts,
  keepdt |-> FALSE, pad3 |-> FALSE, xpd |-> {}, xcd |-> {}, xfd |-> {}, sp |-> TRUE,
  pref |-> "", cref |-> "", pdef |-> 0, cdef |-> 0, shape |-> "", setmode |-> "",
  ptdts |-> {"f8", "f4"}, cndts |-> {"i8", "i4"}, profs |-> <<"plain","wide","tiny","zeros">>,
  buf |-> FALSE ]

V(id, fmt, rf, ext, kw, types, rest) ==
   rest @@ [id |-> id, fmt |-> fmt, rf |-> rf, ext |-> ext, kw |-> kw, types |-> types] @@ Base

NoKw == [zz |-> 0]
Bin(b) == [binary |-> b]

Vtk(id, fmt, b) == V(id, fmt, "vtk", ".vtk", Bin(b), VtkTypes,
   [pnc |-> AnyNc, cnc |-> AnyNc, keepdt |-> TRUE, pad3 |-> TRUE, sp |-> FALSE,
    setmode |-> IF fmt = "vtk42" THEN "" ELSE "data", buf |-> TRUE])
Vtu(id, kw, dig) == V(id, "vtu", "vtu", ".vtu", kw, VtkTypes,
   [pnc |-> AnyNc, cnc |-> AnyNc, keepdt |-> TRUE, pdig |-> dig, ddig |-> dig, setmode |-> "data"])
Xdmf(id, df, comp, dts) == V(id, "xdmf", "xdmf", ".xdmf",
   IF comp = "" THEN [data_format |-> df] ELSE IF comp = "none" THEN [data_format |-> df, compression |-> "@none"]
   ELSE [data_format |-> df, compression |-> comp],
   XdmfTypes, [pnc |-> AnyNc, cnc |-> AnyNc, pdts |-> dts, cdts |-> dts, keepdt |-> TRUE, d2 |-> "keep"])
Gmsh22(id, b) == V(id, "gmsh22", "gmsh", ".msh", Bin(b), GmshTypes,
   [pnc |-> {1,3,9}, cnc |-> {1,3,9}, xcd |-> {"gmsh:physical","gmsh:geometrical"}])
Gmsh4(id, via, b) == V(id, "gmsh", "gmsh", ".msh", Bin(b), GmshTypes,
   [pnc |-> {1,3,9}, cnc |-> {1,3,9}, via |-> via, shape |-> "gmsh41",
    xcd |-> {"gmsh:physical","gmsh:geometrical"}, xpd |-> {"gmsh:dim_tags"}])
Ugrid(id, ext, dig) == V(id, "ugrid", "ugrid", ext, NoKw,
   <<"triangle","quad","tetra","pyramid","wedge","hexahedron">>,
   [ord |-> "type", dup |-> FALSE, pdig |-> dig, xcd |-> {"ugrid:ref"}, cref |-> "ugrid:ref", cdef |-> 1, d2 |-> "pad",
    profs |-> IF dig < 10 THEN <<"plain","zeros">> ELSE Base.profs])
Nastran(id, kw, dig) == V(id, "nastran", "nastran", ".bdf", kw,
   Lin \o <<"quad8","hexahedron20","triangle6","quad9","tetra10","wedge15","pyramid13">>,
   [pdig |-> dig, xpd |-> {"nastran:ref"}, xcd |-> {"nastran:ref"}, profs |-> IF dig < 9 THEN <<"plain","zeros">> ELSE Base.profs])
H5m(id, kw) == V(id, "h5m", "h5m", ".h5m", kw, <<"line","triangle","tetra">>,
   [d2 |-> "keep", ord |-> "type", dup |-> FALSE, pnc |-> AnyNc, xpd |-> {"GLOBAL_ID"}, keepdt |-> TRUE])
Hmf(id, kw) == V(id, "hmf", "hmf", ".hmf", kw, XdmfTypes, [d2 |-> "keep", pnc |-> AnyNc, cnc |-> AnyNc, keepdt |-> TRUE])
Cgns(id, kw) == V(id, "cgns", "cgns", ".cgns", kw, <<"tetra">>, [d2 |-> "no", dup |-> FALSE])
Medit(id, ext) == V(id, "medit", "medit", ext, NoKw,
   <<"line","triangle","quad","tetra","hexahedron","wedge","pyramid">>,
   [d2 |-> "keep", pref |-> "medit:ref", pdef |-> 1, cref |-> "medit:ref", cdef |-> 1,
    xpd |-> {"medit:ref"}, xcd |-> {"medit:ref"}])

Variants == <<
  V("abaqus","abaqus","abaqus",".inp",NoKw,
     <<"line","triangle","quad","quad8","tetra","hexahedron","hexahedron20","wedge","line3","triangle6","quad9","tetra10","wedge15">>,
     [d2 |-> "keep", setmode |-> "ps+cs"]),
  V("ansys-bin","ansys","ansys",".msh",Bin(TRUE),<<"triangle","quad","tetra","hexahedron","wedge","pyramid">>,
     [d2 |-> "keep"]),
  V("ansys-asc","ansys","ansys",".msh",Bin(FALSE),<<"triangle","quad","tetra","hexahedron","wedge","pyramid">>,
     [d2 |-> "keep"]),
  V("avsucd","avsucd","avsucd",".avs",NoKw,Lin,
     [pnc |-> AnyNc, cnc |-> AnyNc, ddig |-> 14, cref |-> "avsucd:material", xcd |-> {"avsucd:material"}, sp |-> FALSE]),
  Cgns("cgns", NoKw), Cgns("cgns-raw", [compression |-> "@none"]),
  V("dolfin","dolfin-xml","dolfin-xml",".xml",NoKw,<<"triangle","tetra">>,
     [d2 |-> "keep", cnc |-> {1}, shape |-> "dolfin", sp |-> TRUE]),
  V("exodus","exodus","exodus",".e",NoKw,
     Lin \o <<"quad8","hexahedron20","line3","triangle6","quad9","tetra10","hexahedron27">>,
     [d2 |-> "keep", pnc |-> AnyNc, keepdt |-> TRUE, setmode |-> "ps"]),
  V("flac3d-asc","flac3d","flac3d",".f3grid",Bin(FALSE),<<"triangle","quad","tetra","pyramid","wedge","hexahedron">>,
     [d2 |-> "no", shape |-> "flac3d", xcd |-> {"cell_ids"}, setmode |-> "cs"]),
  V("flac3d-bin","flac3d","flac3d",".f3grid",Bin(TRUE),<<"triangle","quad","tetra","pyramid","wedge","hexahedron">>,
     [d2 |-> "no", shape |-> "flac3d", xcd |-> {"cell_ids"}, setmode |-> "cs"]),
  Gmsh22("gmsh22-bin", TRUE), Gmsh22("gmsh22-asc", FALSE),
  Gmsh4("gmsh40-bin", "gmsh40", TRUE), Gmsh4("gmsh40-asc", "gmsh40", FALSE),
  Gmsh4("gmsh41-bin", "", TRUE), Gmsh4("gmsh41-asc", "", FALSE),
  H5m("h5m", NoKw), H5m("h5m-raw", [compression |-> "@none"]), H5m("h5m-noid", [add_global_ids |-> FALSE]),
  Hmf("hmf", NoKw), Hmf("hmf-raw", [compression |-> "@none"]),
  V("mdpa","mdpa","mdpa",".mdpa",NoKw,
     <<"vertex","line","triangle","quad","quad8","tetra","hexahedron","hexahedron20","wedge","line3","triangle6","quad9","tetra10","hexahedron27">>,
     [pdig |-> 16]),
  V("med","med","med",".med",NoKw,
     Lin \o <<"line3","triangle6","quad8","tetra10","hexahedron20","wedge15","pyramid13">>,
     [d2 |-> "keep", ord |-> "type", dup |-> FALSE, pnc |-> AnyNc, cnc |-> AnyNc, xfd |-> {"med:nom"},
      pdts |-> {"f8"}, cdts |-> {"f8"}]),
  Medit("medit-asc", ".mesh"), Medit("medit-bin", ".meshb"),
  Nastran("nastran", NoKw, 9), Nastran("nastran-free", [point_format |-> "free", cell_format |-> "free"], 9),
  Nastran("nastran-large", [point_format |-> "fixed-large", cell_format |-> "fixed-large"], 9),
  Nastran("nastran-small", [point_format |-> "fixed-small", cell_format |-> "fixed-small"], 4),
  V("netgen","netgen","netgen",".vol",NoKw,
     Lin \o <<"quad8","hexahedron20","triangle6","tetra10","wedge15","pyramid13">>,
     [ord |-> "type", d2 |-> "keep", cref |-> "netgen:index", cdef |-> 1, xcd |-> {"netgen:index"}]),
  V("neuroglancer","neuroglancer","neuroglancer","",NoKw,<<"triangle">>, [d2 |-> "pad", pdig |-> 6, profs |-> <<"plain","zeros">>]),
  V("obj","obj","obj",".obj",NoKw,<<"triangle","quad">>, [d2 |-> "no", xcd |-> {"obj:group_ids"}, xpd |-> {"obj:vt", "obj:vn"}]),
  V("off","off","off",".off",NoKw,<<"triangle">>, [d2 |-> "pad"]),
  V("permas","permas","permas",".post",NoKw,
     Lin \o <<"quad8","hexahedron20","line3","triangle6","quad9","tetra10","wedge15","hexahedron27">>, [d2 |-> "pad"]),
  V("ply-bin","ply","ply",".ply",Bin(TRUE),<<"vertex","line","triangle","quad">>,
     [d2 |-> "keep", pnc |-> {1}, keepdt |-> TRUE, pdts |-> AllDts, sp |-> FALSE]),
  V("ply-asc","ply","ply",".ply",Bin(FALSE),<<"vertex","line","triangle","quad">>,
     [d2 |-> "keep", pnc |-> {1}, keepdt |-> TRUE, pdts |-> AllDts, sp |-> FALSE]),
  V("stl-bin","stl","stl",".stl",Bin(TRUE),<<"triangle">>, [d2 |-> "pad", pdig |-> 6, shape |-> "soup", profs |-> <<"plain","zeros">>]),
  V("stl-asc","stl","stl",".stl",Bin(FALSE),<<"triangle">>, [d2 |-> "pad", shape |-> "soup", xcd |-> {"facet_normals"}]),
  V("su2","su2","su2",".su2",NoKw,<<"line","triangle","quad","tetra","hexahedron","wedge","pyramid">>,
     [ord |-> "type", d2 |-> "keep", xcd |-> {"su2:tag"}, shape |-> "su2"]),
  V("tecplot","tecplot","tecplot",".dat",NoKw,<<"line","triangle","quad","tetra","hexahedron","pyramid","wedge">>,
     [d2 |-> "keep", pnc |-> {1}, cnc |-> {1}, shape |-> "tecplot", sp |-> FALSE]),
  V("tetgen","tetgen","tetgen",".node",NoKw,<<"tetra">>, [d2 |-> "no", shape |-> "tetgen"]),
  Ugrid("ugrid-asc", ".ugrid", 16), Ugrid("ugrid-b8", ".b8.ugrid", 16), Ugrid("ugrid-lb8", ".lb8.ugrid", 16),
  Ugrid("ugrid-r8", ".r8.ugrid", 16), Ugrid("ugrid-lr8", ".lr8.ugrid", 16),
  Ugrid("ugrid-b8l", ".b8l.ugrid", 16), Ugrid("ugrid-lb8l", ".lb8l.ugrid", 16),
  Ugrid("ugrid-r4", ".r4.ugrid", 6), Ugrid("ugrid-lr4", ".lr4.ugrid", 6),
  Ugrid("ugrid-b4", ".b4.ugrid", 6), Ugrid("ugrid-lb4", ".lb4.ugrid", 6),
  Vtk("vtk-bin","vtk",TRUE), Vtk("vtk-asc","vtk",FALSE), Vtk("vtk42-bin","vtk42",TRUE), Vtk("vtk42-asc","vtk42",FALSE),
  Vtk("vtk51-bin","vtk51",TRUE), Vtk("vtk51-asc","vtk51",FALSE),
  Vtu("vtu", NoKw, 17), Vtu("vtu-raw", [binary |-> TRUE, compression |-> "@none"], 17),
  Vtu("vtu-lzma", [binary |-> TRUE, compression |-> "lzma"], 17),
  Vtu("vtu-u64", [header_type |-> "UInt64"], 17),
  Vtu("vtu-asc", Bin(FALSE), 11),
  V("wkt","wkt","wkt",".wkt",NoKw,<<"triangle">>, [d2 |-> "pad", shape |-> "soup"]),
  Xdmf("xdmf","HDF","",AllDts), Xdmf("xdmf-h5raw","HDF","none",AllDts),
  Xdmf("xdmf-xml","XML","",{"f8","f4","i8","i4","u4","u8"}), Xdmf("xdmf-bin","Binary","",AllDts)
>>

\* formats without a reader: flat meshes only, every cell a path of its own
WriteOnly == <<
  V("svg","svg","svg",".svg",[image_width |-> "@none", float_fmt |-> ".17g"],<<"line","triangle","quad">>,
     [d2 |-> "only", shape |-> "soup", pdig |-> 8, ptdts |-> {"f8"}, profs |-> <<"plain","zeros">>])
>>
AllVariants == Variants \o WriteOnly
Readable(F) == F.d2 # "only"

VariantIds == {AllVariants[i].id : i \in DOMAIN AllVariants}
Fid(id) == AllVariants[CHOOSE i \in DOMAIN AllVariants : AllVariants[i].id = id]

(* Entry points: files may be named by a string, a path object, a relative  *)
(* name or by their extension alone; text and byte streams are accepted by  *)
(* some formats.  [r, w]: "t" text stream, "b" byte stream, "" none;        *)
(* mem: also streams that are not files.                                    *)
Stream(F) ==
   CASE F.fmt \in {"abaqus","avsucd","nastran","netgen","permas","tecplot","wkt"} -> [r |-> "t", w |-> "t", mem |-> TRUE]
     [] F.fmt = "obj" -> [r |-> "t", w |-> "t", mem |-> TRUE]
     [] F.id \in {"ansys-asc","neuroglancer","ply-bin","ply-asc"} -> [r |-> "b", w |-> "b", mem |-> TRUE]
     [] F.id \in {"ansys-bin","mdpa"} -> [r |-> "b", w |-> "b", mem |-> FALSE]
     [] F.id \in {"medit-asc","su2"} -> [r |-> "t", w |-> "b", mem |-> FALSE]
     [] OTHER -> [r |-> "", w |-> "", mem |-> FALSE]
\* further extensions registered for a format
AltExts(F) ==
   CASE F.fmt = "exodus" -> <<".ex2", ".exo">> [] F.fmt = "nastran" -> <<".fem", ".nas">>
     [] F.fmt = "permas" -> <<".post.gz", ".dato", ".dato.gz">> [] F.fmt = "tecplot" -> <<".tec">>
     [] F.fmt = "tetgen" -> <<".ele">> [] F.fmt = "netgen" -> <<".vol.gz">> [] F.fmt = "xdmf" -> <<".xmf">>
     [] OTHER -> <<>>
\* is the variant what a write without naming a format gives?
Implied(F) == F.via = "" /\ F.ext # "" /\ F.fmt \notin {"gmsh", "gmsh22", "vtk42", "vtk51"}

Groups == <<
  <<"ansys-bin","ansys-asc">>, <<"flac3d-bin","flac3d-asc">>, <<"gmsh22-bin","gmsh22-asc">>,
  <<"gmsh40-bin","gmsh40-asc">>, <<"gmsh41-bin","gmsh41-asc">>,
  <<"gmsh22-bin","gmsh40-asc","gmsh41-bin","gmsh41-asc","gmsh22-asc","gmsh40-bin">>,
  <<"nastran","nastran-free","nastran-large">>, <<"h5m","h5m-raw">>, <<"hmf","hmf-raw">>, <<"cgns","cgns-raw">>,
  <<"medit-asc","medit-bin">>, <<"ply-bin","ply-asc">>, <<"stl-bin","stl-asc">>,
  <<"ugrid-asc","ugrid-b8","ugrid-lb8","ugrid-r8","ugrid-lr8","ugrid-b8l","ugrid-lb8l","ugrid-r4","ugrid-lr4","ugrid-b4","ugrid-lb4">>,
  <<"vtk-bin","vtk-asc","vtk42-bin","vtk42-asc","vtk51-bin","vtk51-asc">>,
  <<"vtu","vtu-raw","vtu-lzma","vtu-u64","vtu-asc">>,
  <<"xdmf","xdmf-h5raw","xdmf-xml","xdmf-bin">> >>

---------------------------------------------------------------------------
TypesSet(F) == RangeOf(F.types)
\* cells with any number of nodes
LagrangeTypes == {"VTK_LAGRANGE_CURVE", "VTK_LAGRANGE_TRIANGLE", "VTK_LAGRANGE_QUADRILATERAL", "VTK_LAGRANGE_TETRAHEDRON",
   "VTK_LAGRANGE_HEXAHEDRON", "VTK_LAGRANGE_WEDGE", "VTK_LAGRANGE_PYRAMID"}
OpenTypes(F) ==
   CASE F.fmt = "vtu" \/ F.shape = "vtk" \/ F.rf = "vtk" -> {"polygon"} \cup LagrangeTypes
     [] F.fmt \in {"ply", "obj"} -> {"polygon"}
     [] OTHER -> {}
\* cells given by their faces; a file has only such cells or none
Hedral(F) == F.fmt = "vtu"

\* some formats treat types differently depending on the spatial dimension
Supported(F, m, t) ==
   CASE F.shape = "su2" -> IF m.dim = 2 THEN t \in {"line","triangle","quad"}
                                       ELSE t \in {"triangle","quad","tetra","hexahedron","wedge","pyramid"}
     [] F.shape = "dolfin" -> \* one cell type per file, tetrahedra before triangles
           IF "tetra" \in TypesOf(m) THEN t = "tetra" ELSE t = "triangle"
     [] F.shape = "tecplot" ->
           LET d3 == \E s \in TypesOf(m) : s \in {"tetra","pyramid","wedge","hexahedron"}
               d2 == \E s \in TypesOf(m) : s \in {"triangle","quad"}
           IN /\ t \in TypesSet(F)
              /\ TopDim(t) = (IF d3 THEN 3 ELSE IF d2 THEN 2 ELSE 1)
     [] t \in HedraTypes -> Hedral(F) /\ TypesOf(m) \subseteq HedraTypes
     [] OTHER -> t \in TypesSet(F) \cup OpenTypes(F)

\* types of which only the corners are kept (and this is announced)
ReducedTo(F) == IF F.shape # "flac3d" THEN [x \in {} |-> ""] ELSE
   [x \in {"tetra10"} |-> "tetra"] @@ [x \in {"pyramid13"} |-> "pyramid"] @@ [x \in {"wedge15", "wedge18"} |-> "wedge"]
   @@ [x \in {"hexahedron20", "hexahedron24", "hexahedron27"} |-> "hexahedron"]
   @@ [x \in {"triangle6"} |-> "triangle"] @@ [x \in {"quad8", "quad9"} |-> "quad"]
Reduces(F, m) == \E t \in TypesOf(m) : t \in DOMAIN ReducedTo(F)
Reduced(F, m) == IF ~Reduces(F, m) THEN m ELSE
   [m EXCEPT !.blocks = [k \in DOMAIN m.blocks |->
      LET b == m.blocks[k] IN
      IF b.t \notin DOMAIN ReducedTo(F) THEN b
      ELSE LET t == ReducedTo(F)[b.t] IN [b EXCEPT !.t = t, !.c = [i \in DOMAIN b.c |-> SubSeq(b.c[i], 1, NN(t))]]]]

UnsupportedBlocks(F, m) == {k \in DOMAIN m.blocks : ~Supported(F, m, m.blocks[k].t)}
SupportedBlocks(F, m) == DOMAIN m.blocks \ UnsupportedBlocks(F, m)

\* blocks without cells: stored (or left out) by all but these, on which we are silent
NoEmptyBlocks == {"abaqus", "gmsh22-bin", "gmsh40-asc", "gmsh40-bin", "med", "permas", "ply-asc"}
EmptyOK(F, m) == F.id \notin NoEmptyBlocks \/ \A k \in DOMAIN m.blocks : m.blocks[k].c # <<>>

DupTypes(m) == \E k, l \in DOMAIN m.blocks : k < l /\ m.blocks[k].t = m.blocks[l].t

\* is every component of m something variant F promises to store?
SpacyNames == {"my data", "zone id", "wall 2", "x&y<z>"}
\* scalars must be plain vectors for some
NcOK(F, S, nc) == NC(nc) \in S /\ (F.fmt \in {"ply", "tecplot", "dolfin-xml", "tetgen"} => nc = 0)
DataOK(F, m) ==
   /\ F.fmt = "netgen" /\ Has(m.cd, "netgen:index") => IsIntDt(Get(m.cd, "netgen:index").dt)
   /\ F.sp \/ (Names(m.pd) \cup Names(m.cd)) \cap SpacyNames = {}
   /\ F.pnc = {} \/ \A i \in DOMAIN m.pd : NcOK(F, F.pnc, m.pd[i].nc) /\ m.pd[i].dt \in F.pdts
   /\ F.cnc = {} \/ \A i \in DOMAIN m.cd : NcOK(F, F.cnc, m.cd[i].nc) /\ m.cd[i].dt \in F.cdts

Promised(F, m) ==
   /\ UnsupportedBlocks(F, m) = {}
   /\ m.dim = 3 \/ F.d2 # "no"
   /\ m.dim = 2 \/ F.d2 # "only"
   /\ F.dup \/ ~DupTypes(m)
   /\ DataOK(F, m)
   /\ m.pdt \in F.ptdts
   /\ \A k \in DOMAIN m.blocks : m.blocks[k].dt \in F.cndts
   /\ "lay" \notin DOMAIN m \/ m.lay # "be"       \* foreign byte order may be refused
   /\ F.fmt # "gmsh" \/ F.via # "" \/ Has(m.pd, "gmsh:dim_tags") \/ Len(m.blocks) <= 1
   /\ F.fmt # "gmsh" \/ ~Has(m.pd, "gmsh:dim_tags") \/ Get(m.pd, "gmsh:dim_tags").nc = 2
   /\ Len(m.blocks) > 0 /\ NumCells(m) > 0 /\ EmptyOK(F, m)

---------------------------------------------------------------------------
(* What comes back.                                                        *)
---------------------------------------------------------------------------
KeptMesh(F, m) == RestrictBlocks(m, SupportedBlocks(F, m))

\* Tecplot: one zone of one shape; other shapes are stored as degenerate ones
TecConv(ts, c) ==
   LET toHex == \E s \in ts : s # "tetra" /\ TopDim(s) = 3
       toQuad == "quad" \in ts
       P(o) == [i \in DOMAIN o |-> c.c[o[i] + 1]]
   IN CASE c.t = "triangle" /\ toQuad -> [t |-> "quad", c |-> P(<<0,1,2,2>>)]
        [] c.t = "tetra" /\ toHex -> [t |-> "hexahedron", c |-> P(<<0,1,2,2,3,3,3,3>>)]
        [] c.t = "pyramid" -> [t |-> "hexahedron", c |-> P(<<0,1,2,3,4,4,4,4>>)]
        [] c.t = "wedge" -> [t |-> "hexahedron", c |-> P(<<0,1,4,3,2,2,5,5>>)]
        [] OTHER -> c

\* FLAC3D: zones are stored right-handed; a left-handed one comes back mirrored
Mirror(c) ==
   LET P(o) == [i \in DOMAIN o |-> c.c[o[i] + 1]]
   IN CASE c.t = "tetra" -> [c EXCEPT !.c = P(<<0,2,1,3>>)]
        [] c.t = "pyramid" -> [c EXCEPT !.c = P(<<0,3,2,1,4>>)]
        [] c.t = "wedge" -> [c EXCEPT !.c = P(<<0,2,1,3,5,4>>)]
        [] c.t = "hexahedron" -> [c EXCEPT !.c = P(<<0,3,2,1,4,7,6,5>>)]
        [] OTHER -> c

\* m.sg: per block, per cell the sign of the volume spanned by its first corners
ExpCells(F, m) ==
   LET k  == KeptMesh(F, m)
       kc == FlatCells(k)
       ts == TypesOf(k)
   IN CASE F.shape = "tecplot" -> [i \in DOMAIN kc |-> TecConv(ts, kc[i])]
        [] F.shape = "flac3d" ->
             LET ks == SelectSeq([i \in DOMAIN m.blocks |-> i], LAMBDA i : i \in SupportedBlocks(F, m))
                 sg == FlattenSeq([j \in DOMAIN ks |-> m.sg[ks[j]]])
                 all == [i \in DOMAIN kc |-> IF sg[i] >= 0 THEN kc[i] ELSE Mirror(kc[i])]
             \* faces come before zones
             IN SelectSeq(all, LAMBDA c : TopDim(c.t) = 2) \o SelectSeq(all, LAMBDA c : TopDim(c.t) = 3)
        [] OTHER -> kc

\* cells whose orientation is undecided (no volume) may come back either way
Undecided(F, m) ==
   LET kc == FlatCells(KeptMesh(F, m))
       ks == SelectSeq([i \in DOMAIN m.blocks |-> i], LAMBDA i : i \in SupportedBlocks(F, m))
       sg == FlattenSeq([j \in DOMAIN ks |-> m.sg[ks[j]]])
   IN IF F.shape # "flac3d" THEN {} ELSE {kc[i] : i \in {j \in DOMAIN kc : sg[j] = 0}}
Settle(F, m, oc) ==
   LET U == Undecided(F, m)
   IN IF U = {} THEN oc ELSE [i \in DOMAIN oc |-> IF Mirror(oc[i]) \in U THEN Mirror(oc[i]) ELSE oc[i]]

\* Gmsh 4.x stores nodes entity by entity: stable sort of the points by entity
PointOrder(F, m) ==
   IF F.shape # "gmsh41" \/ ~Has(m.pd, "gmsh:dim_tags") THEN [i \in DOMAIN m.pts |-> i]
   ELSE LET d == Get(m.pd, "gmsh:dim_tags").r
            ks == SetToSortSeq(RangeOf(d), <)
        IN FlattenSeq([k \in DOMAIN ks |-> SelectSeq([i \in DOMAIN d |-> i], LAMBDA i : d[i] = ks[k])])

DataDig(F, d) ==
   LET b == IF d.dt = "f4" THEN Min2(F.ddig, 6) ELSE IF d.dt = "f8" THEN F.ddig ELSE 17
   IN IF "dig" \in DOMAIN d /\ d.dig < 17 THEN Min2(b, d.dig) - 1 ELSE b

IntArrays(s) == SelectSeq(s, LAMBDA d : IsIntDt(d.dt) /\ d.nc = 0)
=============================================================================
