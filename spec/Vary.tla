---------------------------------- MODULE Vary ---------------------------------
(***************************************************************************)
(* Other ways to say the same thing: for each text format, the rewritings  *)
(* of a file that its rules allow.  A rewritten file means the same mesh:  *)
(* it is read as the file it was made from.                                *)
(***************************************************************************)
EXTENDS Conform

Kind(F) ==
   CASE F.id = "gmsh22-asc" -> "gmsh22" [] F.id = "gmsh40-asc" -> "gmsh40" [] F.id = "gmsh41-asc" -> "gmsh41"
     [] F.id \in {"vtk-asc", "vtk51-asc"} -> "vtk51" [] F.id = "vtk42-asc" -> "vtk42"
     [] F.id = "medit-asc" -> "medit" [] F.id = "ply-asc" -> "ply" [] F.id = "stl-asc" -> "stl" [] F.id = "flac3d-asc" -> "flac3d"
     [] F.id = "ugrid-asc" -> "ugrid" [] F.id = "ansys-asc" -> "ansys" [] F.id = "xdmf-xml" -> "xdmf" [] F.id = "vtu-asc" -> "vtu"
     [] F.id = "dolfin" -> "dolfin-xml" [] F.fmt = "exodus" -> "exodus"
     [] F.fmt = "xdmf" -> "xdmfh" [] F.fmt = "vtu" -> "vtub"           \* the numbers are elsewhere, or encoded
     [] F.fmt \in {"abaqus", "avsucd", "mdpa", "nastran", "netgen", "obj", "off", "permas", "su2", "tecplot", "tetgen", "wkt"} -> F.fmt
     [] OTHER -> ""

\* what stands where: at most one of these at a time
Structural(k) ==
   CASE k = "abaqus" -> <<"renumber", "wrap", "generate", "pieces", "others", "keyword", "inline", "case">>
     [] k = "avsucd" -> <<"renumber", "roworder", "units">>
     [] k = "flac3d" -> <<"renumber", "wrap", "quotes">>
     [] k = "tetgen" -> <<"wrapup">>
     [] k = "ugrid" -> <<"wrap">>
     [] k = "obj" -> <<"others", "slashes", "relative">>
     [] k = "off" -> <<"edges">>
     [] k = "medit" -> <<"dimension", "keyword", "others", "wrap", "order">>
     [] k = "su2" -> <<"indices", "order", "npoin">>
     [] k = "netgen" -> <<"others", "keyword", "order">>
     [] k = "tecplot" -> <<"wrap", "old", "lines", "point", "case">>
     [] k = "permas" -> <<"case", "others", "renumber">>
     [] k = "nastran" -> <<"free", "large", "small", "numbers", "renumber", "others", "order", "executive">>
     [] k = "stl" -> <<"name">>
     [] k = "gmsh22" -> <<"order", "renumber", "tags">>
     [] k = "gmsh40" -> <<"order", "tags">>
     [] k = "gmsh41" -> <<"order", "renumber", "tags">>
     [] k = "ply" -> <<"info", "keyword", "columns">>
     [] k = "mdpa" -> <<"renumber", "others", "conditions", "indent">>
     [] k = "ansys" -> <<"others", "paren">>
     [] k = "dolfin-xml" -> <<"attributes", "declaration", "selfclose", "order">>
     [] k = "xdmfh" -> <<"attributes", "declaration", "selfclose", "keyword">>
     [] k = "vtub" -> <<"attributes", "declaration", "order", "arrays">>
     [] k = "exodus" -> <<"keyword", "info">>
     [] k = "vtu" -> <<"attributes", "declaration", "selfclose", "wrap", "order", "arrays">>
     [] k = "xdmf" -> <<"attributes", "declaration", "selfclose", "wrap", "keyword">>
     [] k \in {"vtk51", "vtk42"} -> <<"title", "case", "wrap", "metadata">>
     [] k = "wkt" -> <<"case">>
\* how it is set: any of these, in this order
Lexical(k) ==
   IF k = "exodus" THEN <<>> ELSE IF k = "vtub" THEN <<"comment">> ELSE IF k = "xdmfh" THEN <<"comment", "tail", "crlf">> ELSE
   (IF k \notin {"dolfin-xml", "nastran"} THEN <<"numbers">> ELSE <<>>)
   \o (IF k \notin {"nastran", "dolfin-xml", "vtu", "xdmf"} THEN <<"spaces">> ELSE <<>>)
   \o (IF k \notin {"ugrid", "stl", "vtk51", "vtk42", "wkt"} THEN <<"comment">> ELSE <<>>)
   \o (IF k \notin {"avsucd", "tecplot", "permas", "wkt", "ugrid", "ply", "dolfin-xml", "vtu", "xdmf"} THEN <<"blank">> ELSE <<>>)
   \o <<"nonl", "tail", "crlf">>

VaryNext(fs, e) ==
   LET x == FileAt(fs, e.f) IN
   IF IsNone(x) \/ e.res.st # "ok" THEN fs
   ELSE (e.g :> [k \in DOMAIN x \cup {"varied"} |-> IF k = "varied" THEN TRUE ELSE x[k]]) @@ fs
\* a rewritten file is read as the one it was made from (the file's `seen` is carried over)
VaryVerdict(fs, e) == IF e.res.st = "ok" THEN {} ELSE {"vary.broken"}      \* the rewriting itself went wrong
=============================================================================
