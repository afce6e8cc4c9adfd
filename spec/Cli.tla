---------------------------------- MODULE Cli ----------------------------------
(***************************************************************************)
(* The command line: what each subcommand does to the files.  The mesh in  *)
(* slot e.s is what the library read from the input just before.           *)
(***************************************************************************)
EXTENDS System, MeshApi

\* ---- the requested conversions of the mesh --------------------------------
SetsToInt(m) ==
   LET pd == IF m.ps = <<>> THEN m.pd
             ELSE Append(Without(m.pd, JoinSets(m.ps, "-")), [n |-> JoinSets(m.ps, "-"), nc |-> 0, dt |-> "i8", dig |-> 17, r |-> NumberPoints(m)])
       cd == IF m.cs = <<>> THEN m.cd
             ELSE Append(Without(m.cd, JoinSets(m.cs, "-")), [n |-> JoinSets(m.cs, "-"), nc |-> 0, dt |-> "i8", dig |-> 17, r |-> NumberCells(m)])
   IN [m EXCEPT !.pd = pd, !.cd = cd, !.ps = <<>>, !.cs = <<>>]
IntArr(d) == IsIntDt(d.dt) /\ d.nc = 0
PSetsOf(d) == LET tags == Sorted(RangeOf(d.r)) nm == SetNamesFor(d.n, <<d.n>>, tags)
              IN [i \in DOMAIN tags |-> [n |-> nm[i], m |-> At(d.r, tags[i])]]
CSetsOf(d) == LET tags == Sorted(RangeOf(FlatRows(d))) nm == SetNamesFor(d.n, <<d.n>>, tags)
              IN [i \in DOMAIN tags |-> [n |-> nm[i], m |-> [k \in DOMAIN d.r |-> At(d.r[k], tags[i])]]]
IntToSets(m) ==
   LET ip == SelectSeq(m.pd, IntArr) ic == SelectSeq(m.cd, IntArr) IN
   [m EXCEPT !.pd = SelectSeq(m.pd, LAMBDA d : ~IntArr(d)), !.cd = SelectSeq(m.cd, LAMBDA d : ~IntArr(d)),
             !.ps = m.ps \o FlattenSeq([i \in DOMAIN ip |-> PSetsOf(ip[i])]),
             !.cs = m.cs \o FlattenSeq([i \in DOMAIN ic |-> CSetsOf(ic[i])])]
Requested(m, e) ==
   IF e.cmd # "convert" THEN m
   ELSE LET a == IF e.sd = 1 THEN SetsToInt(m) ELSE m IN IF e.ds = 1 THEN IntToSets(a) ELSE a

\* ---- the representation asked for -----------------------------------------
EncOK(e) ==
   LET f == e.ofmt x == e.res.enc IN
   CASE e.cmd = "ascii" \/ (e.cmd = "convert" /\ e.a = 1) ->
          (CASE f = "vtu" -> x = "ascii" [] f = "xdmf" -> x = "XML" [] OTHER -> x = "text")
     [] e.cmd = "binary" ->
          (CASE f = "vtu" -> x \in {"raw", "zlib", "lzma"} [] f = "xdmf" -> x \in {"HDF", "HDFz"} [] OTHER -> x = "bin")
     [] e.cmd = "compress" ->
          (CASE f = "vtu" -> x = (IF e.max = 1 THEN "lzma" ELSE "zlib") [] f = "xdmf" -> x = "HDFz" [] f \in {"cgns", "h5m"} -> x = "z" [] OTHER -> x = "bin")
     [] e.cmd = "decompress" -> (CASE f = "xdmf" -> x = "HDF" [] OTHER -> x = "raw")
     [] OTHER -> TRUE

\* formats each in-place command can rewrite
Rewrites(cmd) ==
   CASE cmd = "ascii" -> {"ansys", "flac3d", "gmsh", "mdpa", "ply", "stl", "vtk", "vtu", "xdmf"}
     [] cmd = "binary" -> {"ansys", "flac3d", "gmsh", "ply", "stl", "vtk", "vtu", "xdmf"}
     [] cmd = "compress" -> {"ansys", "cgns", "gmsh", "h5m", "ply", "stl", "vtk", "vtu", "xdmf"}
     [] cmd = "decompress" -> {"cgns", "h5m", "vtu", "xdmf"}
     [] OTHER -> {}

\* ---- info -------------------------------------------------------------------
Comma(s) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o ", " \o b, "", [i \in DOMAIN s |-> s[i].n])
Dangling(m) == \E k \in DOMAIN m.blocks : \E j \in DOMAIN m.blocks[k].c : \E x \in RangeOf(m.blocks[k].c[j]) : x >= Len(m.pts)
UsedPts(m) == UNION {UNION {RangeOf(m.blocks[k].c[j]) : j \in DOMAIN m.blocks[k].c} : k \in DOMAIN m.blocks}
InfoVerdict(m, r) ==
   IfNot(r.st = "ok", "cli.failed")
   \cup (IF r.st # "ok" THEN {} ELSE
      IfNot(r.np = Len(m.pts) /\ r.cells = [k \in DOMAIN m.blocks |-> [t |-> m.blocks[k].t, n |-> Len(m.blocks[k].c)]], "cli.info")
      \cup IfNot(r.pd = Comma(m.pd) /\ r.cd = Comma(m.cd) /\ r.ps = Comma(m.ps) /\ r.cs = Comma(m.cs), "cli.info")
      \cup IfNot(r.bad = Dangling(m), "cli.flag")
      \cup IfNot(r.unused = (~Dangling(m) /\ UsedPts(m) # 0..(Len(m.pts) - 1)), "cli.flag"))

\* ---- verdict and next state -------------------------------------------------
CliVerdict(mem, fs, e) ==
   LET m == MeshIn(mem, e.s)
       r == e.res
       allowed == RangeOf(e.may)
       untouched == IfNot(RangeOf(r.touched) \subseteq (IF e.cmd = "info" THEN {} ELSE allowed), "cli.touched")
   IN untouched \cup
      (IF IsNone(m) THEN IfNot(r.st # "ok", "cli.accepted") \cup IfNot(r.touched = <<>>, "cli.damaged")
       ELSE IF e.cmd = "info" THEN InfoVerdict(m, r)
       ELSE IF e.cmd # "convert" /\ e.ifmt \notin Rewrites(e.cmd)
            THEN IfNot(r.st # "ok", "cli.accepted") \cup IfNot(r.touched = <<>>, "cli.damaged")
       ELSE IfNot(~(Promised(Fid(e.fid), Requested(m, e)) /\ r.st # "ok"), "cli.failed")
            \cup IfNot(r.st = "ok" \/ e.cmd = "convert" \/ r.touched = <<>>, "cli.damaged")
            \cup IfNot(r.st # "ok" \/ EncOK(e), "cli.representation")
            \cup IfNot(r.twin # "differs", "cli.twin"))
CliNext(mem, fs, e) ==
   LET m == MeshIn(mem, e.s) IN
   IF e.cmd = "info" \/ IsNone(m) THEN fs
   ELSE IF e.res.st # "ok" THEN (IF e.res.touched = <<>> THEN fs ELSE (e.g :> [fid |-> e.fid, m |-> m, old |-> {}, state |-> "bad", seen |-> None, seenas |-> ""]) @@ fs)
   ELSE (e.g :> [fid |-> e.fid, m |-> Requested(m, e), old |-> {}, state |-> "good", seen |-> None, seenas |-> ""]) @@ fs
=============================================================================
