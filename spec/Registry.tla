------------------------------- MODULE Registry -------------------------------
(***************************************************************************)
(* The format registry: which formats exist, which extensions imply them,  *)
(* and what a read or a write by name or by file name does.                *)
(*   ext : sequence of [x, fs]  extension -> formats, in registration order*)
(*   rd  : function name -> behaviour of its reader                        *)
(*   wr  : function name -> behaviour of its writer                        *)
(* Behaviours: "accept", "reject" (says it is not its kind of file),       *)
(* "crash" (any other failure).                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

NoFun == [x \in {} |-> ""]
Start == [ext |-> NoFun, rd |-> NoFun, wr |-> NoFun]

FormatsOf(g, x) == IF x \in DOMAIN g.ext THEN g.ext[x] ELSE <<>>
In(s, v) == \E i \in DOMAIN s : s[i] = v
Add(s, v) == IF In(s, v) THEN s ELSE Append(s, v)
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* register format n for the extensions xs (a sequence); writers: sequence of <<name, behaviour>>
Register(g, n, xs, r, ws) ==
   LET xset == {xs[i] : i \in DOMAIN xs} IN
   [ext |-> [x \in xset |-> Add(FormatsOf(g, x), n)] @@ g.ext,
    rd |-> IF r = "none" THEN g.rd ELSE (n :> r) @@ g.rd,
    wr |-> [w \in {ws[i][1] : i \in DOMAIN ws} |-> (ws[CHOOSE i \in DOMAIN ws : ws[i][1] = w])[2]] @@ g.wr]
Deregister(g, n) ==
   [ext |-> [x \in DOMAIN g.ext |-> SelectSeq(g.ext[x], LAMBDA f : f # n)],
    rd |-> Drop(g.rd, n), wr |-> Drop(g.wr, n)]

\* the formats a file name implies: shorter extensions first.  sufs: the lower-case suffixes,
\* from left to right, e.g. <<".vol", ".gz">>
JoinFrom(sufs, i) == FoldLeft(LAMBDA a, b : a \o b, "", SubSeq(sufs, i, Len(sufs)))
Once(all) == LET keep == SelectSeq([i \in DOMAIN all |-> i], LAMBDA i : \A j \in 1..(i-1) : all[j] # all[i])
             IN [i \in DOMAIN keep |-> all[keep[i]]]
Candidates(g, sufs) ==
   Once(FlattenSeq([k \in DOMAIN sufs |-> FormatsOf(g, JoinFrom(sufs, Len(sufs) + 1 - k))]))

\* ---- reading: [ok, calls, by] --------------------------------------------
RECURSIVE Try(_, _, _)
Try(g, cs, done) ==
   IF cs = <<>> THEN [ok |-> FALSE, calls |-> done, by |-> ""]
   ELSE LET c == Head(cs) IN
        CASE g.rd[c] = "accept" -> [ok |-> TRUE, calls |-> Append(done, c), by |-> c]
          [] g.rd[c] = "reject" -> Try(g, Tail(cs), Append(done, c))
          [] OTHER -> [ok |-> FALSE, calls |-> Append(done, c), by |-> ""]
Failed == [ok |-> FALSE, calls |-> <<>>, by |-> ""]
ReadOutcome(g, fmt, sufs, exists, buffer) ==
   IF fmt = "" THEN (IF buffer \/ ~exists THEN Failed
                     ELSE Try(g, SelectSeq(Candidates(g, sufs), LAMBDA c : c \in DOMAIN g.rd), <<>>))
   ELSE IF fmt \notin DOMAIN g.rd \/ ~(exists \/ buffer) THEN Failed
   ELSE Try(g, <<fmt>>, <<>>)

\* ---- writing: set of allowed outcomes ------------------------------------
WriteOutcomes(g, fmt, sufs, buffer, shapeok) ==
   LET by(c) == IF g.wr[c] = "accept" THEN [ok |-> TRUE, calls |-> <<c>>, by |-> c] ELSE [ok |-> FALSE, calls |-> <<c>>, by |-> ""]
       cs == Candidates(g, sufs)
       ws == SelectSeq(cs, LAMBDA c : c \in DOMAIN g.wr)
   IN IF ~shapeok THEN {Failed}
      ELSE IF fmt # "" THEN {IF fmt \in DOMAIN g.wr THEN by(fmt) ELSE Failed}
      ELSE IF buffer \/ cs = <<>> \/ ws = <<>> THEN {Failed}
      ELSE IF cs[1] = ws[1] THEN {by(ws[1])} ELSE {Failed, by(ws[1])}    \* the first one cannot write

IfNot(b, c) == IF b THEN {} ELSE {c}
ReadVerdict(g, e) ==
   LET o == ReadOutcome(g, e.fmt, e.low, e.exists = 1, e.buffer = 1) r == e.res IN
   IfNot((r.st = "ok") = o.ok, IF o.ok THEN "dispatch.refused" ELSE "dispatch.accepted")
   \cup IfNot(Once(r.calls) = o.calls, "dispatch.tried")
   \cup IfNot(r.st # "ok" \/ ~o.ok \/ r.by = o.by, "dispatch.format")
   \cup IfNot(r.files = <<>>, "dispatch.wrote")
WriteVerdict(g, e) ==
   LET os == WriteOutcomes(g, e.fmt, e.low, e.buffer = 1, e.shape = "ok") r == e.res
       got == [ok |-> r.st = "ok", calls |-> r.calls, by |-> r.by]
   IN IfNot(\E o \in os : o.ok = got.ok, IF got.ok THEN "dispatch.accepted" ELSE "dispatch.refused")
      \cup IfNot(\E o \in os : o.calls = got.calls /\ (o.ok = got.ok => o.by = got.by), "dispatch.format")
      \cup IfNot(r.calls # <<>> \/ r.files = <<>>, "dispatch.wrote")
      \cup IfNot(r.st # "ok" \/ (r.kw = e.kwn /\ r.pathok = 1), "dispatch.passed")
=============================================================================
