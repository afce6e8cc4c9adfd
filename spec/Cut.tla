---------------------------------- MODULE Cut ----------------------------------
(***************************************************************************)
(* Crash points: a file is cut short, as a crash or an interrupted copy    *)
(* leaves it.  Reading it may fail; if it succeeds, the mesh is the one    *)
(* the complete file holds.                                                *)
(***************************************************************************)
EXTENDS Cli

\* "whole": the file declares all it contains
\* "parts": each section declares what it contains; whole sections may be gone
\* "no":    the format does not say how much there is
CutRule(F) ==
   CASE F.fmt \in {"abaqus", "nastran", "permas", "obj", "neuroglancer"} \/ F.id \in {"stl-asc", "flac3d-asc"} -> "no"
     [] F.fmt \in {"gmsh", "gmsh22", "vtk", "vtk42", "vtk51", "medit", "ansys", "mdpa", "netgen", "su2"} -> "parts"
     [] OTHER -> "whole"

\* (without its header, a binary FLAC3D or STL file is taken for an ASCII one, which has no counts)
CutNext(fs, e) ==
   LET x == FileAt(fs, e.f) IN
   IF IsNone(x) \/ e.res.st # "ok" THEN fs
   ELSE (e.g :> [fid |-> x.fid, m |-> x.m, old |-> {}, state |-> IF e.res.lost /\ ~(Fid(x.fid).fmt \in {"flac3d", "stl"} /\ e.res.at < 84) THEN "cut" ELSE "uncut", seen |-> None, seenas |-> "", full |-> x.seen]) @@ fs

\* arrays of s that are not, whole, among those of t
Damaged(s, t) == {i \in DOMAIN s : ~(\E j \in DOMAIN t : t[j] = s[i])}
\* SU2: missing markers are announced; the elements of those that are there are complete,
\* merged by type, and the inner elements are all there or not yet begun
Su2Parts(m, o) ==
   \A k \in DOMAIN m.blocks :
      LET b == m.blocks[k]
          P == SelectSeq(o.blocks, LAMBDA x : x.t = b.t)
      IN IF TopDim(b.t) = o.dim THEN \E i \in DOMAIN P : P[i] = b
         ELSE \E i \in DOMAIN P : Len(b.c) <= Len(P[i].c) /\ b.c = SubSeq(P[i].c, 1, Len(b.c))
CutVerdict(fs, e) ==
   LET x == FileAt(fs, e.f) r == e.res IN
   IF IsNone(x) \/ x.state # "cut" \/ IsNone(x.full) THEN {}
   ELSE IF r.st = "garbled" THEN {"cut.garbled"}
   ELSE IF r.st # "ok" THEN {}
   ELSE LET F == Fid(x.fid) o == x.full m == r.m rule == CutRule(F) IN
      CASE rule = "no" -> {}
        [] rule = "whole" -> If(m.pts = o.pts /\ m.blocks = o.blocks /\ m.dim = o.dim, "cut.partial")
                             \cup If(m.pd = o.pd /\ m.cd = o.cd /\ m.fd = o.fd /\ m.ps = o.ps /\ m.cs = o.cs, "cut.lost")
        [] OTHER -> IF m.pts = <<>> /\ m.blocks = <<>> THEN {} ELSE      \* nothing but the header was left
                    If(m.pts = o.pts /\ m.dim = o.dim, "cut.partial")
                    \cup If(IF F.fmt = "mdpa" THEN LET s == FlatCells(m) IN Len(s) <= NumCells(o) /\ s = SubSeq(FlatCells(o), 1, Len(s))
                            ELSE IF F.fmt = "su2" THEN Su2Parts(m, o)
                            ELSE IF F.fmt \in {"medit", "ansys", "netgen", "su2"}
                            THEN Len(m.blocks) <= Len(o.blocks) /\ \A k \in DOMAIN m.blocks : m.blocks[k] = o.blocks[k]
                            ELSE m.blocks = o.blocks \/ m.blocks = <<>>, "cut.partial")
                    \cup (IF m.blocks # o.blocks THEN {} ELSE
                          If(Damaged(m.pd, o.pd) = {} /\ Damaged(m.cd, o.cd) = {} /\ Damaged(m.fd, o.fd) = {}, "cut.lost"))
=============================================================================
