----------------------------- MODULE TraceSystem -----------------------------
(* Checks a recorded trace of the real library against System.  Each event *)
(* is one step; its verdict is printed clause by clause; the state follows *)
(* the observation, so that one deviation does not hide the next.          *)
EXTENDS Foreign, Owners, Json
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES i, mem, fs, ref       \* ref: what was first read of the mesh under comparison
vars == <<i, mem, fs, ref>>

Empty == [x \in {} |-> None]
Init == i = 1 /\ mem = Empty /\ fs = Empty /\ ref = None

Verdict(e, mm, ff, rr) ==
   CASE e.op = "new" /\ "chk" \notin DOMAIN e -> If(e.res.st = "ok", "new.refused")
     [] e.op = "new" -> IF RowsOK(e.m) THEN (IF e.res.st # "ok" THEN {"new.refused"} ELSE If(SameValues(e.m, e.res.m), "new.other"))
                        ELSE If(e.res.st # "ok", "new.accepted")
     [] e.op \in {"views", "copy", "p2d", "c2d", "pd2s", "cd2s"} /\ IsNone(MeshIn(mm, e.s)) -> {}
     [] e.op = "views" -> ViewsVerdict(mm[e.s], e.res)
     [] e.op = "copy" -> If(e.res.st = "ok", "copy.failed") \cup If(e.res.st # "ok" \/ SameMesh(mm[e.s], e.res.m), "copy.differs")
     [] e.op = "p2d" -> PointSetsToData(mm[e.s], e.name, e.join, e.res)
     [] e.op = "c2d" -> CellSetsToData(mm[e.s], e.name, e.res)
     [] e.op = "pd2s" -> PointDataToSets(mm[e.s], e.key, e.parts, e.res)
     [] e.op = "cd2s" -> CellDataToSets(mm[e.s], e.key, e.parts, e.res)
     [] e.op = "poke" -> {}
     [] e.op = "cli" -> CliVerdict(mm, ff, e)
     [] e.op = "write" -> WriteVerdict(mm, e)
     [] e.op = "cut" -> {}
     [] e.op = "vary" -> VaryVerdict(ff, e)
     [] e.op = "foreign" -> ForeignVerdict(e)
     [] e.op = "decode" -> DecodeVerdict(ff, e)
     [] e.op = "read" -> ReadVerdict(ff, e) \cup CutVerdict(ff, e) \cup RereadVerdict(ff, e) \cup RefVerdict(rr, e)
     [] e.op = "look" -> LookVerdict(mm, e)
     [] e.op \in {"rwrite", "rread"} -> RefuseVerdict(mm, ff, e)
     [] e.op = "ls" -> {}

Step ==
   /\ i <= Len(Trace)
   /\ LET e == Trace[i]
          fresh == e.i = 0
          mm == IF fresh THEN Empty ELSE mem
          ff == IF fresh THEN Empty ELSE fs
          rr == IF fresh THEN None ELSE ref
          v == Verdict(e, mm, ff, rr)
      IN /\ \A c \in v : Report(e.fam, c) => PrintT(<<"FAIL", e.sc, e.i, e.fam, c>>)
         /\ mem' = CASE e.op = "new" -> (e.s :> (IF e.res.st = "ok" THEN e.res.m ELSE None)) @@ mm
                     [] e.op = "read" -> ReadNext(mm, ff, e)
                     [] e.op = "write" -> MemNext(mm, e)
                     [] e.op = "copy" -> (e.s2 :> (IF e.res.st = "ok" THEN e.res.m ELSE None)) @@ mm
                     [] e.op = "poke" -> (e.s :> None) @@ mm
                     [] e.op \in {"p2d", "c2d", "pd2s", "cd2s"} -> (e.s :> (IF "m" \in DOMAIN e.res THEN e.res.m ELSE None)) @@ mm
                     [] OTHER -> mm
         /\ fs' = CASE e.op = "write" -> WriteNext(mm, ff, e)
                    [] e.op = "cli" -> CliNext(mm, ff, e)
                    [] e.op = "cut" -> CutNext(ff, e)
                    [] e.op = "vary" -> VaryNext(ff, e)
                    [] e.op = "foreign" -> ForeignNext(ff, e)
                    [] e.op = "read" -> SeenNext(ff, e)
                    [] OTHER -> ff
         /\ ref' = IF e.op = "read" /\ "grp" \in DOMAIN e /\ e.res.st = "ok" /\ IsNone(rr) THEN [fid |-> e.fid, m |-> e.res.m] ELSE rr
   /\ i' = i + 1
Next == Step
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
