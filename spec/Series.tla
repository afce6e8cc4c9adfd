-------------------------------- MODULE Series --------------------------------
(***************************************************************************)
(* XDMF time series: a writer is opened on a file, given one mesh and then *)
(* any number of steps; a reader gives back the mesh and any step.         *)
(* A writer:  [f, fid, m, steps, open]   a file: [fid, m, steps]           *)
(* A reader:  [f, m]  (m = None until the mesh has been read)              *)
(***************************************************************************)
EXTENDS System

At(fun, k) == IF k \in DOMAIN fun THEN fun[k] ELSE None
Modes == {"HDF", "XML", "Binary"}
Step(t, m) == [t |-> t, pd |-> m.pd, cd |-> m.cd]
With(m, pd, cd) == [m EXCEPT !.pd = pd, !.cd = cd]

\* verdicts: w = writer state, x = file state, r = reader state
WOpenV(e) == IF e.mode \in Modes THEN If(e.res.st = "ok", "series.refused") ELSE If(e.res.st # "ok", "series.accepted")
WMeshV(w, e) == IF IsNone(w) THEN {} ELSE If(e.res.st = "ok", "series.refused") \cup If(e.res.mut = <<>>, "pure.mutated")
WDataV(w, e) ==
   IF IsNone(w) THEN {}
   ELSE IF IsNone(w.m) THEN If(e.res.st # "ok", "series.misuse")
   ELSE If(e.res.st = "ok", "series.refused") \cup If(e.res.mut = <<>>, "pure.mutated")
WCloseV(w, e) == IF IsNone(w) THEN {} ELSE If(e.res.st = "ok", "series.refused") \cup If(e.res.stray = <<>>, "series.stray")

ROpenV(x, e) ==
   IF IsNone(x) THEN If(e.res.st # "ok", "read.nofile")
   ELSE IF IsNone(x.m) THEN {}
   ELSE IF e.res.st # "ok" THEN {"series.unreadable"} ELSE If(e.res.n = Len(x.steps), "series.count")
RMeshV(x, e) ==
   IF IsNone(x) \/ IsNone(x.m) THEN {}
   ELSE IF e.res.st # "ok" THEN {"series.unreadable"}
   ELSE Geo(Fid(x.fid), x.m, e.res.m)
RDataV(x, r, e) ==
   IF IsNone(x) \/ IsNone(r) \/ IsNone(x.m) THEN {}
   ELSE IF IsNone(r.m) \/ e.k >= Len(x.steps) THEN If(e.res.st # "ok", "series.misuse")
   ELSE IF e.res.st # "ok" THEN {"series.unreadable"}
   ELSE LET s == x.steps[e.k + 1]
            F == Fid(x.fid)
            a == With(x.m, s.pd, s.cd) b == With(r.m, e.res.pd, e.res.cd)
        IN If(e.res.t = s.t, "series.time")
           \cup (IF ~Consistent(b) THEN {"read.inconsistent"} ELSE PointData(F, a, b) \cup CellData(F, a, b))
           \cup If(Names(s.pd) = Names(e.res.pd) /\ Names(s.cd) = Names(e.res.cd), "series.names")
=============================================================================
