------------------------------- MODULE Conform --------------------------------
(***************************************************************************)
(* What the numbers in a file mean, format by format: which code stands    *)
(* for which cell type, in which order a cell's nodes are listed, where    *)
(* numbering starts.  A written file, decoded without the library, must    *)
(* mean the mesh that was written.                                         *)
(***************************************************************************)
EXTENDS Cut

\* ---- node order ----------------------------------------------------------
(* Corners 0..n-1; a further node is named by the corners it lies between.  *)
(* Sites(t): the library's order (that of VTK).                             *)
Sites(t) ==
   CASE t = "line3" -> <<{0,1}>>
     [] t = "triangle6" -> <<{0,1},{1,2},{0,2}>>
     [] t = "quad8" -> <<{0,1},{1,2},{2,3},{0,3}>>
     [] t = "quad9" -> <<{0,1},{1,2},{2,3},{0,3},{0,1,2,3}>>
     [] t = "tetra10" -> <<{0,1},{1,2},{0,2},{0,3},{1,3},{2,3}>>
     [] t = "hexahedron20" -> <<{0,1},{1,2},{2,3},{0,3},{4,5},{5,6},{6,7},{4,7},{0,4},{1,5},{2,6},{3,7}>>
     [] t = "hexahedron27" -> <<{0,1},{1,2},{2,3},{0,3},{4,5},{5,6},{6,7},{4,7},{0,4},{1,5},{2,6},{3,7},
                                {0,3,4,7},{1,2,5,6},{0,1,4,5},{2,3,6,7},{0,1,2,3},{4,5,6,7},0..7>>
     [] t = "wedge15" -> <<{0,1},{1,2},{0,2},{3,4},{4,5},{3,5},{0,3},{1,4},{2,5}>>
     [] t = "pyramid13" -> <<{0,1},{1,2},{2,3},{0,3},{0,4},{1,4},{2,4},{3,4}>>
     [] OTHER -> <<>>
CornerCount(t) == NN(t) - Len(Sites(t))
\* Gmsh: edges in the order of its reference manual
GmshSites(t) ==
   CASE t = "tetra10" -> <<{0,1},{1,2},{0,2},{0,3},{2,3},{1,3}>>
     [] t = "hexahedron20" -> <<{0,1},{0,3},{0,4},{1,2},{1,5},{2,3},{2,6},{3,7},{4,5},{4,7},{5,6},{6,7}>>
     [] t = "hexahedron27" -> <<{0,1},{0,3},{0,4},{1,2},{1,5},{2,3},{2,6},{3,7},{4,5},{4,7},{5,6},{6,7},
                                {0,1,2,3},{0,1,4,5},{0,3,4,7},{1,2,5,6},{2,3,6,7},{4,5,6,7},0..7>>
     [] t = "wedge15" -> <<{0,1},{0,2},{0,3},{1,2},{1,4},{2,5},{3,4},{3,5},{4,5}>>
     [] t = "pyramid13" -> <<{0,1},{0,3},{0,4},{1,2},{1,4},{2,3},{2,4},{3,4}>>
     [] OTHER -> Sites(t)
\* Nastran: upright edges before the upper ones
NastranSites(t) ==
   CASE t = "hexahedron20" -> <<{0,1},{1,2},{2,3},{0,3},{0,4},{1,5},{2,6},{3,7},{4,5},{5,6},{6,7},{4,7}>>
     [] t = "wedge15" -> <<{0,1},{1,2},{0,2},{0,3},{1,4},{2,5},{3,4},{4,5},{3,5}>>
     [] OTHER -> Sites(t)
\* Netgen: its own numbering of edges; volume cells have the other orientation
NetgenSites(t) ==
   CASE t = "triangle6" -> <<{1,2},{0,2},{0,1}>>
     [] t = "quad8" -> <<{0,1},{2,3},{0,3},{1,2}>>
     [] t = "tetra10" -> <<{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}>>
     [] t = "pyramid13" -> <<{0,1},{2,3},{0,3},{1,2},{0,4},{1,4},{2,4},{3,4}>>
     [] t = "wedge15" -> <<{0,1},{0,2},{1,2},{0,3},{1,4},{2,5},{3,4},{3,5},{4,5}>>
     [] t = "hexahedron20" -> <<{0,1},{2,3},{0,3},{1,2},{4,5},{6,7},{4,7},{5,6},{0,4},{1,5},{2,6},{3,7}>>
     [] OTHER -> Sites(t)
NetgenCorners(t) ==
   CASE t \in {"tetra", "tetra10"} -> <<0,2,1,3>> [] t \in {"pyramid", "pyramid13"} -> <<0,3,2,1,4>>
     [] t \in {"wedge", "wedge15"} -> <<0,2,1,3,5,4>> [] t \in {"hexahedron", "hexahedron20"} -> <<0,3,2,1,4,7,6,5>>
     [] OTHER -> [i \in 1..CornerCount(t) |-> i - 1]

Ident(n) == [i \in 1..n |-> i - 1]
\* order of the library from the order of the file, given where the file's nodes lie
FromSites(t, corners, fs) ==
   LET s == Sites(t) nc == CornerCount(t)
   IN corners \o [j \in DOMAIN s |-> nc - 1 + (CHOOSE i \in DOMAIN fs : fs[i] = {corners[c + 1] : c \in s[j]})]
InverseOf(w) == [j \in DOMAIN w |-> (CHOOSE i \in DOMAIN w : w[i] = j - 1) - 1]

\* FileOrder(F, t)[j]: place (from 0) in the file of the library's j-th node
FileOrder(F, t) ==
   CASE F.fmt \in {"vtk", "vtk42", "vtk51", "vtu"} /\ t = "wedge" -> <<0,2,1,3,5,4>>
     [] F.fmt \in {"gmsh", "gmsh22"} /\ GmshSites(t) # Sites(t) -> FromSites(t, Ident(CornerCount(t)), GmshSites(t))
     [] F.fmt = "nastran" /\ NastranSites(t) # Sites(t) -> FromSites(t, Ident(CornerCount(t)), NastranSites(t))
     [] F.fmt = "netgen" -> FromSites(t, NetgenCorners(t), NetgenSites(t))
     [] F.fmt = "avsucd" /\ t = "tetra" -> InverseOf(<<0,1,3,2>>)
     [] F.fmt = "avsucd" /\ t = "pyramid" -> InverseOf(<<4,0,1,2,3>>)
     [] F.fmt = "avsucd" /\ t = "wedge" -> InverseOf(<<3,4,5,0,1,2>>)
     [] F.fmt = "avsucd" /\ t = "hexahedron" -> InverseOf(<<4,5,6,7,0,1,2,3>>)
     [] F.fmt = "flac3d" /\ t = "pyramid" -> InverseOf(<<0,1,3,4,2>>)
     [] F.fmt = "flac3d" /\ t = "wedge" -> InverseOf(<<0,1,3,2,4,5>>)
     [] F.fmt = "flac3d" /\ t = "hexahedron" -> InverseOf(<<0,1,3,4,2,7,5,6>>)
     [] F.fmt = "permas" /\ t = "triangle6" -> InverseOf(<<0,3,1,4,2,5>>)
     [] F.fmt = "permas" /\ t = "tetra10" -> InverseOf(<<0,4,1,5,2,6,7,8,9,3>>)
     [] F.fmt = "permas" /\ t = "quad9" -> InverseOf(<<0,4,1,7,8,5,3,6,2>>)
     [] F.fmt = "permas" /\ t = "wedge15" -> InverseOf(<<0,6,1,7,2,8,9,10,11,3,12,4,13,5,14>>)
     [] F.fmt = "ugrid" /\ t = "pyramid" -> InverseOf(<<1,0,4,2,3>>)
     [] OTHER -> Ident(NN(t))

\* ---- codes -----------------------------------------------------------------
VtkCodes == "1" :> "vertex" @@ "3" :> "line" @@ "5" :> "triangle" @@ "9" :> "quad" @@ "10" :> "tetra" @@ "12" :> "hexahedron"
   @@ "13" :> "wedge" @@ "14" :> "pyramid" @@ "21" :> "line3" @@ "22" :> "triangle6" @@ "23" :> "quad8" @@ "24" :> "tetra10"
   @@ "25" :> "hexahedron20" @@ "26" :> "wedge15" @@ "27" :> "pyramid13" @@ "28" :> "quad9" @@ "29" :> "hexahedron27"
   @@ "32" :> "wedge18" @@ "33" :> "hexahedron24" @@ "35" :> "line4"
GmshCodes == "1" :> "line" @@ "2" :> "triangle" @@ "3" :> "quad" @@ "4" :> "tetra" @@ "5" :> "hexahedron" @@ "6" :> "wedge" @@ "7" :> "pyramid"
   @@ "8" :> "line3" @@ "9" :> "triangle6" @@ "10" :> "quad9" @@ "11" :> "tetra10" @@ "12" :> "hexahedron27" @@ "13" :> "wedge18"
   @@ "14" :> "pyramid14" @@ "15" :> "vertex" @@ "16" :> "quad8" @@ "17" :> "hexahedron20" @@ "18" :> "wedge15" @@ "19" :> "pyramid13"
   @@ "21" :> "triangle10" @@ "23" :> "triangle15" @@ "25" :> "triangle21" @@ "26" :> "line4" @@ "27" :> "line5" @@ "28" :> "line6"
   @@ "29" :> "tetra20" @@ "30" :> "tetra35" @@ "31" :> "tetra56" @@ "36" :> "quad16" @@ "37" :> "quad25" @@ "38" :> "quad36"
   @@ "42" :> "triangle28" @@ "43" :> "triangle36" @@ "44" :> "triangle45" @@ "45" :> "triangle55" @@ "46" :> "triangle66"
   @@ "47" :> "quad49" @@ "48" :> "quad64" @@ "49" :> "quad81" @@ "50" :> "quad100" @@ "51" :> "quad121"
   @@ "62" :> "line7" @@ "63" :> "line8" @@ "64" :> "line9" @@ "65" :> "line10" @@ "66" :> "line11"
   @@ "71" :> "tetra84" @@ "72" :> "tetra120" @@ "73" :> "tetra165" @@ "74" :> "tetra220" @@ "75" :> "tetra286"
   @@ "90" :> "wedge40" @@ "91" :> "wedge75" @@ "92" :> "hexahedron64" @@ "93" :> "hexahedron125" @@ "94" :> "hexahedron216"
   @@ "95" :> "hexahedron343" @@ "96" :> "hexahedron512" @@ "97" :> "hexahedron729" @@ "98" :> "hexahedron1000"
   @@ "106" :> "wedge126" @@ "107" :> "wedge196" @@ "108" :> "wedge288" @@ "109" :> "wedge405" @@ "110" :> "wedge550"
XdmfCodes == "1" :> "vertex" @@ "2" :> "line" @@ "4" :> "triangle" @@ "5" :> "quad" @@ "6" :> "tetra" @@ "7" :> "pyramid" @@ "8" :> "wedge"
   @@ "9" :> "hexahedron" @@ "34" :> "line3" @@ "35" :> "quad9" @@ "36" :> "triangle6" @@ "37" :> "quad8" @@ "38" :> "tetra10"
   @@ "39" :> "pyramid13" @@ "40" :> "wedge15" @@ "41" :> "wedge18" @@ "48" :> "hexahedron20" @@ "49" :> "hexahedron24" @@ "50" :> "hexahedron27"
   @@ "51" :> "hexahedron64" @@ "52" :> "hexahedron125" @@ "53" :> "hexahedron216" @@ "54" :> "hexahedron343" @@ "55" :> "hexahedron512"
   @@ "56" :> "hexahedron729" @@ "57" :> "hexahedron1000" @@ "64" :> "hexahedron1331"
   @@ "polyvertex" :> "vertex" @@ "polyline" :> "line" @@ "edge_3" :> "line3" @@ "triangle" :> "triangle" @@ "quadrilateral" :> "quad"
   @@ "tetrahedron" :> "tetra" @@ "pyramid" :> "pyramid" @@ "wedge" :> "wedge" @@ "hexahedron" :> "hexahedron"
   @@ "triangle_6" :> "triangle6" @@ "tri_6" :> "triangle6" @@ "quadrilateral_8" :> "quad8" @@ "quad_8" :> "quad8"
   @@ "quadrilateral_9" :> "quad9" @@ "quad_9" :> "quad9" @@ "tetrahedron_10" :> "tetra10" @@ "tet_10" :> "tetra10"
   @@ "pyramid_13" :> "pyramid13" @@ "wedge_15" :> "wedge15" @@ "wedge_18" :> "wedge18"
   @@ "hexahedron_20" :> "hexahedron20" @@ "hex_20" :> "hexahedron20" @@ "hexahedron_24" :> "hexahedron24" @@ "hex_24" :> "hexahedron24"
   @@ "hexahedron_27" :> "hexahedron27" @@ "hex_27" :> "hexahedron27" @@ "hexahedron_64" :> "hexahedron64" @@ "hex_64" :> "hexahedron64"
   @@ "hexahedron_125" :> "hexahedron125" @@ "hex_125" :> "hexahedron125" @@ "hexahedron_216" :> "hexahedron216" @@ "hex_216" :> "hexahedron216"
   @@ "hexahedron_343" :> "hexahedron343" @@ "hex_343" :> "hexahedron343" @@ "hexahedron_512" :> "hexahedron512" @@ "hex_512" :> "hexahedron512"
   @@ "hexahedron_729" :> "hexahedron729" @@ "hex_729" :> "hexahedron729" @@ "hexahedron_1000" :> "hexahedron1000"
   @@ "hex_1000" :> "hexahedron1000" @@ "hexahedron_1331" :> "hexahedron1331" @@ "hex_1331" :> "hexahedron1331"
AbaqusCodes == "B31H" :> "line" @@ "B33H" :> "line3" @@ "CAX4P" :> "quad" @@ "S8R5" :> "quad8" @@ "S9R5" :> "quad9" @@ "R3D3" :> "triangle"
   @@ "CPE6" :> "triangle6" @@ "C3D8RH" :> "hexahedron" @@ "C3D20RH" :> "hexahedron20" @@ "C3D4" :> "tetra" @@ "C3D10MH" :> "tetra10"
   @@ "C3D6" :> "wedge" @@ "C3D15" :> "wedge15"
PermasCodes == "PLOT1" :> "vertex" @@ "FSCPIPE2" :> "line" @@ "PLOTL3" :> "line3" @@ "SHELL4" :> "quad" @@ "QUAMS8" :> "quad8" @@ "QUAMS9" :> "quad9"
   @@ "TRIMS3" :> "triangle" @@ "TRIMS6" :> "triangle6" @@ "HEXFO8" :> "hexahedron" @@ "HEXE20" :> "hexahedron20" @@ "HEXE27" :> "hexahedron27"
   @@ "TET4" :> "tetra" @@ "TET10" :> "tetra10" @@ "PYRA5" :> "pyramid" @@ "PENTA6" :> "wedge" @@ "PENTA15" :> "wedge15"
MedCodes == "PO1" :> "vertex" @@ "SE2" :> "line" @@ "SE3" :> "line3" @@ "TR3" :> "triangle" @@ "TR6" :> "triangle6" @@ "QU4" :> "quad" @@ "QU8" :> "quad8"
   @@ "TE4" :> "tetra" @@ "T10" :> "tetra10" @@ "HE8" :> "hexahedron" @@ "H20" :> "hexahedron20" @@ "PY5" :> "pyramid" @@ "P13" :> "pyramid13"
   @@ "PE6" :> "wedge" @@ "P15" :> "wedge15"
ExodusCodes == "SPHERE" :> "vertex" @@ "BAR2" :> "line" @@ "BEAM3" :> "line3" @@ "QUAD4" :> "quad" @@ "QUAD" :> "quad" @@ "SHELL" :> "quad" @@ "SHELL4" :> "quad"
   @@ "QUAD8" :> "quad8" @@ "QUAD9" :> "quad9" @@ "TRI3" :> "triangle" @@ "TRIANGLE" :> "triangle" @@ "TRI6" :> "triangle6" @@ "HEX8" :> "hexahedron"
   @@ "HEX" :> "hexahedron" @@ "HEXAHEDRON" :> "hexahedron" @@ "HEX20" :> "hexahedron20" @@ "HEX27" :> "hexahedron27" @@ "TETRA" :> "tetra" @@ "TET4" :> "tetra" @@ "TETRA4" :> "tetra"
   @@ "TETRA10" :> "tetra10" @@ "PYRAMID" :> "pyramid" @@ "WEDGE" :> "wedge" @@ "BEAM2" :> "line" @@ "EDGE" :> "line" @@ "TRUSS2" :> "line"
MdpaCodes == "Line2D2" :> "line" @@ "Line3D2" :> "line" @@ "Triangle2D3" :> "triangle" @@ "Triangle3D3" :> "triangle" @@ "Quadrilateral2D4" :> "quad" @@ "Quadrilateral3D4" :> "quad"
   @@ "Tetrahedra3D4" :> "tetra" @@ "Hexahedra3D8" :> "hexahedron" @@ "Prism3D6" :> "wedge" @@ "Line2D3" :> "line3" @@ "Line3D3" :> "line3"
   @@ "Triangle2D6" :> "triangle6" @@ "Triangle3D6" :> "triangle6" @@ "Quadrilateral2D9" :> "quad9" @@ "Quadrilateral3D9" :> "quad9"
   @@ "Tetrahedra3D10" :> "tetra10" @@ "Hexahedra3D27" :> "hexahedron27" @@ "Point2D" :> "vertex" @@ "Point3D" :> "vertex"
   @@ "Quadrilateral2D8" :> "quad8" @@ "Quadrilateral3D8" :> "quad8" @@ "Hexahedra3D20" :> "hexahedron20"
FaceCodes == "face1" :> "vertex" @@ "face2" :> "line" @@ "face3" :> "triangle" @@ "face4" :> "quad"
ByNodes == "CELAS1/1" :> "vertex" @@ "CBAR/2" :> "line" @@ "CTRIA3/3" :> "triangle" @@ "CTRIA6/6" :> "triangle6" @@ "CQUAD4/4" :> "quad" @@ "CQUAD8/8" :> "quad8"
   @@ "CQUAD9/9" :> "quad9" @@ "CTETRA/4" :> "tetra" @@ "CTETRA/10" :> "tetra10" @@ "CPYRA/5" :> "pyramid" @@ "CPYRA/13" :> "pyramid13"
   @@ "CPENTA/6" :> "wedge" @@ "CPENTA/15" :> "wedge15" @@ "CHEXA/8" :> "hexahedron" @@ "CHEXA/20" :> "hexahedron20"
NetgenCodes == "point" :> "vertex" @@ "edge" :> "line" @@ "surf3" :> "triangle" @@ "surf6" :> "triangle6" @@ "surf4" :> "quad" @@ "surf8" :> "quad8"
   @@ "vol4" :> "tetra" @@ "vol10" :> "tetra10" @@ "vol5" :> "pyramid" @@ "vol13" :> "pyramid13" @@ "vol6" :> "wedge" @@ "vol15" :> "wedge15"
   @@ "vol8" :> "hexahedron" @@ "vol20" :> "hexahedron20"
OtherCodes ==   \* AVS-UCD, UGRID, FLAC3D, ANSYS, Tecplot, Medit, DOLFIN, H5M, soups
   "pt" :> "vertex" @@ "line" :> "line" @@ "tri" :> "triangle" @@ "quad" :> "quad" @@ "tet" :> "tetra" @@ "pyr" :> "pyramid" @@ "prism" :> "wedge"
   @@ "pri" :> "wedge" @@ "hex" :> "hexahedron"
   @@ "T3" :> "triangle" @@ "Q4" :> "quad" @@ "T4" :> "tetra" @@ "P5" :> "pyramid" @@ "W6" :> "wedge" @@ "B8" :> "hexahedron"
   @@ "1" :> "triangle" @@ "2" :> "tetra" @@ "3" :> "quad" @@ "4" :> "hexahedron" @@ "5" :> "pyramid" @@ "6" :> "wedge"
   @@ "FELINESEG" :> "line" @@ "FETRIANGLE" :> "triangle" @@ "FEQUADRILATERAL" :> "quad" @@ "FETETRAHEDRON" :> "tetra" @@ "FEBRICK" :> "hexahedron"
   @@ "Edges" :> "line" @@ "Triangles" :> "triangle" @@ "Quadrilaterals" :> "quad" @@ "Tetrahedra" :> "tetra" @@ "Hexahedra" :> "hexahedron"
   @@ "Prisms" :> "wedge" @@ "Pyramids" :> "pyramid"
   @@ "triangle" :> "triangle" @@ "tetrahedron" :> "tetra" @@ "interval" :> "line"
   @@ "Edge2" :> "line" @@ "Tri3" :> "triangle" @@ "Tet4" :> "tetra" @@ "tet4" :> "tetra" @@ "facet" :> "triangle"
Su2Codes == "3" :> "line" @@ "5" :> "triangle" @@ "9" :> "quad" @@ "10" :> "tetra" @@ "12" :> "hexahedron" @@ "13" :> "wedge" @@ "14" :> "pyramid"

Codes(F) ==
   CASE F.fmt \in {"vtk", "vtk42", "vtk51", "vtu"} -> VtkCodes
     [] F.fmt \in {"gmsh", "gmsh22"} -> GmshCodes
     [] F.fmt \in {"xdmf", "hmf"} -> XdmfCodes
     [] F.fmt = "abaqus" -> AbaqusCodes [] F.fmt = "permas" -> PermasCodes [] F.fmt = "med" -> MedCodes
     [] F.fmt = "exodus" -> ExodusCodes [] F.fmt = "mdpa" -> MdpaCodes [] F.fmt = "nastran" -> ByNodes
     [] F.fmt = "netgen" -> NetgenCodes [] F.fmt = "su2" -> Su2Codes
     [] F.fmt \in {"off", "ply", "obj"} -> FaceCodes
     [] OTHER -> OtherCodes
CodeKey(F, b) == IF F.fmt = "nastran" THEN b.t \o "/" \o ToString(IF b.c = <<>> THEN 0 ELSE Len(b.c[1])) ELSE b.t
KnownCode(F, b) == CodeKey(F, b) \in DOMAIN Codes(F) /\ (b.c = <<>> \/ Len(b.c[1]) = NN(Codes(F)[CodeKey(F, b)]))

\* does numbering start at 0?  (formats that number their points explicitly aside)
FromZero(F) == F.fmt \in {"vtk", "vtk42", "vtk51", "vtu", "xdmf", "hmf", "off", "ply", "stl", "su2", "wkt", "neuroglancer", "svg"}
Place(F, ids, x) ==        \* 0-based place of the point with number x
   IF ids = <<>> THEN (IF FromZero(F) THEN x ELSE x - 1)
   ELSE IF \E i \in DOMAIN ids : ids[i] = x THEN (CHOOSE i \in DOMAIN ids : ids[i] = x) - 1 ELSE -1

\* ---- the mesh a decoded file means --------------------------------------------
Meaning(F, raw, ids) ==
   LET pos == IF ids = [i \in DOMAIN ids |-> i] THEN <<>> ELSE ids      \* the usual numbering, from one
       P(x) == IF ids # <<>> /\ pos = <<>> THEN x - 1 ELSE Place(F, ids, x)
   IN [raw EXCEPT !.blocks = [k \in DOMAIN raw.blocks |->
        LET b == raw.blocks[k]
            t == Codes(F)[CodeKey(F, b)]
            o == FileOrder(F, t)
        IN [b EXCEPT !.t = t, !.c = [j \in DOMAIN b.c |-> [i \in DOMAIN o |-> P(b.c[j][o[i] + 1])]]]]]

\* what the decoders recover beyond points and cells
Aspects(F) ==
   CASE F.fmt \in {"vtk", "vtk42", "vtk51", "vtu"} -> {"data", "set"}
     [] F.fmt \in {"xdmf", "hmf", "avsucd", "tecplot", "ply", "dolfin-xml", "med", "h5m"} -> {"data", "tag"}
     [] F.fmt = "exodus" -> {"data", "set"}
     [] F.fmt \in {"gmsh", "gmsh22"} -> {"data", "tag"}
     [] F.fmt = "abaqus" -> {"set"} [] F.fmt = "flac3d" -> {"set"}
     [] F.fmt \in {"nastran", "medit", "su2", "ugrid", "tetgen", "netgen"} -> {"tag"}
     [] OTHER -> {}
DecodeClauses(F, m, o) ==
   (IF F.shape = "su2" THEN Su2Geo(F, m, o) ELSE Geo(F, m, o))
   \cup (IF "data" \in Aspects(F) THEN PointData(F, m, o) \cup CellData(F, m, o) ELSE {})
   \cup (IF "tag" \in Aspects(F) THEN CellTags(F, m, o) \cup PointTags(F, m, o) \cup TetgenTags(F, m, o) \cup Su2Tags(F, m, o)
                                      \cup FieldData(F, m, o) \cup Periodic(F, m, o) ELSE {})
   \cup (IF "set" \in Aspects(F) THEN PointSets(F, m, o) \cup CellSets(F, m, o) \cup SetData(F, m, o) ELSE {})

\* a MED field has one number of components, on points and on cells
Clash(F, m) == F.fmt = "med" /\ \E i \in DOMAIN m.pd : Has(m.cd, m.pd[i].n) /\ NC(Get(m.cd, m.pd[i].n).nc) # NC(m.pd[i].nc)
DecodeVerdict(fs, e) ==
   LET x == FileAt(fs, e.f) r == e.res IN
   IF IsNone(x) \/ x.state # "good" \/ ~Consistent(x.m) THEN {}
   ELSE LET F == Fid(x.fid) m == Reduced(F, x.m) IN
      IF KeptMesh(F, m).blocks = <<>> \/ NumCells(KeptMesh(F, m)) = 0 \/ ~EmptyOK(F, m) THEN {}
      ELSE IF Clash(F, m) THEN {}
      ELSE IF r.st # "ok" THEN {"conf.structure"}
      ELSE IF \E i \in DOMAIN r.counts : r.counts[i][2] # r.counts[i][3] THEN {"conf.counts"}
      ELSE IF \E k \in DOMAIN r.m.blocks : ~KnownCode(F, r.m.blocks[k]) THEN {"conf.code"}
      ELSE LET o == Meaning(F, r.m, r.ids) IN
           IF ~Consistent(o) THEN {"conf.numbering"} ELSE DecodeClauses(F, m, o)

ASSUME OrdersAreOrders ==
   \A i \in DOMAIN Variants : \A k \in DOMAIN Variants[i].types :
      LET t == Variants[i].types[k] IN NN(t) > 27 \/ RangeOf(FileOrder(Variants[i], t)) = 0..(NN(t) - 1)
=============================================================================
