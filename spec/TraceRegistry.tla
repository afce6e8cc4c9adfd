----------------------------- MODULE TraceRegistry -----------------------------
EXTENDS Registry, Owners, Json
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES i, g
Init == i = 1 /\ g = Start
Verdict(e, gg) == CASE e.op = "read" -> ReadVerdict(gg, e) [] e.op = "write" -> WriteVerdict(gg, e)
                    [] OTHER -> IfNot(e.res.st = "ok", "dispatch.register")
Next ==
   /\ i <= Len(Trace)
   /\ LET e == Trace[i] gg == IF e.i = 0 THEN Start ELSE g v == Verdict(e, gg) IN
      /\ \A c \in v : Report(e.fam, c) => PrintT(<<"FAIL", e.sc, e.i, e.fam, c>>)
      /\ g' = CASE e.op = "reg" -> Register(gg, e.n, e.xs, e.r, e.ws) [] e.op = "dereg" -> Deregister(gg, e.n) [] OTHER -> gg
   /\ i' = i + 1
Spec == Init /\ [][Next]_<<i, g>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
