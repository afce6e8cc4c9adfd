------------------------------ MODULE TraceSeries ------------------------------
EXTENDS Series, Owners, Json
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES i, st     \* st: [wr, rd, fs]: functions from names to writers / readers / files
Empty == [x \in {} |-> None]
Fresh == [wr |-> Empty, rd |-> Empty, fs |-> Empty]
Init == i = 1 /\ st = Fresh
W(s, e) == At(s.wr, e.w)
Rd(s, e) == At(s.rd, e.r)
FileOf(s, e) == IF IsNone(Rd(s, e)) THEN None ELSE At(s.fs, Rd(s, e).f)

Verdict(s, e) ==
   CASE e.op = "wopen" -> WOpenV(e)
     [] e.op = "wmesh" -> WMeshV(W(s, e), e)
     [] e.op = "wdata" -> WDataV(W(s, e), e)
     [] e.op = "wclose" -> WCloseV(W(s, e), e)
     [] e.op = "sforeign" -> If(e.res.st = "ok", "foreign.broken")
     [] e.op = "ropen" -> ROpenV(At(s.fs, e.f), e)
     [] e.op = "rmesh" -> RMeshV(FileOf(s, e), e)
     [] e.op = "rdata" -> RDataV(FileOf(s, e), Rd(s, e), e)
     [] OTHER -> {}
Ok(e) == e.res.st = "ok"
NextSt(s, e) ==
   CASE e.op = "wopen" -> [s EXCEPT !.wr = (e.w :> (IF Ok(e) THEN [f |-> e.f, fid |-> e.fid, m |-> None, steps |-> <<>>] ELSE None)) @@ s.wr]
     [] e.op = "wmesh" /\ ~IsNone(W(s, e)) /\ Ok(e) -> [s EXCEPT !.wr[e.w].m = e.res.m]
     [] e.op = "wdata" /\ ~IsNone(W(s, e)) /\ Ok(e) -> [s EXCEPT !.wr[e.w].steps = Append(@, Step(e.t, e.res.m))]
     [] e.op = "wclose" /\ ~IsNone(W(s, e)) /\ Ok(e) ->
          [s EXCEPT !.fs = (W(s, e).f :> [fid |-> W(s, e).fid, m |-> W(s, e).m, steps |-> W(s, e).steps]) @@ s.fs, !.wr[e.w] = None]
     [] e.op = "ropen" -> [s EXCEPT !.rd = (e.r :> (IF Ok(e) THEN [f |-> e.f, m |-> None] ELSE None)) @@ s.rd]
     [] e.op = "rmesh" /\ ~IsNone(Rd(s, e)) /\ Ok(e) -> [s EXCEPT !.rd[e.r].m = e.res.m]
     [] e.op = "sforeign" /\ Ok(e) ->
          [s EXCEPT !.fs = (e.f :> [fid |-> e.fid, m |-> e.m, steps |-> [j \in DOMAIN e.steps |-> Step(e.steps[j].t, e.steps[j].m)]]) @@ s.fs]
     [] e.op = "mv" -> [s EXCEPT !.fs = [f \in {e.g} |-> At(s.fs, e.f)] @@ [f \in DOMAIN s.fs \ {e.f} |-> s.fs[f]]]
     [] OTHER -> s
Next ==
   /\ i <= Len(Trace)
   /\ LET e == Trace[i] s == IF e.i = 0 THEN Fresh ELSE st v == Verdict(s, e) IN
      /\ \A c \in v : Report(e.fam, c) => PrintT(<<"FAIL", e.sc, e.i, e.fam, c>>)
      /\ st' = NextSt(s, e)
   /\ i' = i + 1
Spec == Init /\ [][Next]_<<i, st>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
