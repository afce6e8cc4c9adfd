------------------------------- MODULE GenSeries -------------------------------
(* Histories of time series writers and readers.                              *)
EXTENDS GenLib
CONSTANTS Seed, NRand, Out, Shard, NShards

ModeOf(F) == CASE F.id = "xdmf" -> "HDF" [] F.id = "xdmf-xml" -> "XML" [] OTHER -> "Binary"
Fs == <<Fid("xdmf"), Fid("xdmf-xml"), Fid("xdmf-bin")>>

\* the arrays of one step
SPd(F, np, key, s) ==
   [i \in 1..(R(key, 50) % 4) |->
      LET k == R(key, 60 + i) nc == ArrNc(F.pnc, k) dt == ArrDt(F.pdts, k)
      IN [n |-> NamePool(F)[((R(key, 51) + i) % Len(NamePool(F))) + 1], nc |-> nc, dt |-> dt, r |-> MkRows(np, nc, dt, k, 100 * s + i)]]
SCd(F, blocks, key, s) ==
   [i \in 1..(R(key, 70) % 4) |->
      LET k == R(key, 80 + i) nc == ArrNc(F.cnc, k) dt == ArrDt(F.cdts, k)
      IN [n |-> NamePool(F)[((R(key, 71) + i) % Len(NamePool(F))) + 1], nc |-> nc, dt |-> dt,
          r |-> [b \in DOMAIN blocks |-> MkRows(Len(blocks[b].c), nc, dt, R(k, b), 100 * s + 10 + 10 * i + b)]]]
Bare(m) == [m EXCEPT !.pd = <<>>, !.cd = <<>>, !.ps = <<>>, !.cs = <<>>, !.fd = <<>>]
StepMesh(F, m, key, s) == [m EXCEPT !.pd = SPd(F, Len(m.pts), key, s), !.cd = SCd(F, m.blocks, R(key, 1), s)]

Dirs == <<"", "sub/", "sub/deep/">>
\* file names: some share their stem
Stems == <<"ts", "a.b", "ts", "out put">>
WOpen(w, f, F) == [op |-> "wopen", w |-> w, f |-> f, fid |-> F.id, mode |-> ModeOf(F)]
WMesh(w, m, form) == [op |-> "wmesh", w |-> w, m |-> m, form |-> form]
WData(w, t, m) == [op |-> "wdata", w |-> w, t |-> t, m |-> m]
WClose(w) == [op |-> "wclose", w |-> w]
ROpen(r, f) == [op |-> "ropen", r |-> r, f |-> f]
RMesh(r) == [op |-> "rmesh", r |-> r]
RData(r, k) == [op |-> "rdata", r |-> r, k |-> k]
RClose(r) == [op |-> "rclose", r |-> r]
Cd(d) == [op |-> "cd", d |-> d]

Series(w, F, f, key) ==        \* the calls of one writer
   LET m == Bare(RandMesh(F, R(key, 1)))
       n == R(key, 2) % 6
       early == IF Chance(R(key, 3), 25) THEN <<WData(w, 1, StepMesh(F, m, R(key, 4), 1))>> ELSE <<>>
   IN <<WOpen(w, f, F)>> \o early \o <<WMesh(w, m, Pick(<<"block", "tuple", "tuple">>, R(key, 5)))>>
      \o [s \in 1..n |-> WData(w, R(key, 20 + s) % 12, StepMesh(F, m, R(key, 30 + s), s))] \o <<WClose(w)>>
NSteps(key) == R(key, 2) % 6
Reads(r, f, key) ==
   LET n == NSteps(key)
       early == IF Chance(R(key, 6), 20) THEN <<RData(r, 0)>> ELSE <<>>
   IN <<ROpen(r, f)>> \o early \o <<RMesh(r)>>
      \o [j \in 1..(n + 2) |-> RData(r, IF j = n + 1 THEN n + (R(key, 7) % 2) ELSE R(key, 40 + j) % Max2(n, 1))]
      \o (IF Chance(R(key, 8), 40) THEN <<RMesh(r)>> ELSE <<>>)
      \o [j \in 1..n |-> RData(r, n - j)] \o <<RClose(r)>>

RECURSIVE Weave(_, _, _)
Weave(a, b, key) ==
   IF a = <<>> THEN b ELSE IF b = <<>> THEN a
   ELSE IF R(key, Len(a) + 3 * Len(b)) % 2 = 0 THEN <<Head(a)>> \o Weave(Tail(a), b, key) ELSE <<Head(b)>> \o Weave(a, Tail(b), key)

Case(k) ==
   LET key == Mix(Mix(Seed, 51), 10 * k + Shard)
       F == Fs[(k % 3) + 1] G == Pick(Fs, R(key, 1))
       stem == Pick(Stems, R(key, 2))
       f == Pick(Dirs, R(key, 3)) \o stem \o ".xdmf"
       g0 == Pick(Dirs, R(key, 4)) \o Pick(Stems, R(key, 5)) \o ".xdmf"
       g == IF g0 = f THEN "other.xdmf" ELSE g0
       ka == R(key, 10) kb == R(key, 11)
       two == Chance(R(key, 6), 50)
       cd(i) == IF Chance(R(key, 12 + i), 40) THEN <<Cd(Pick(Dirs, R(key, 16 + i)))>> ELSE <<>>
       mv == IF Chance(R(key, 20), 30) THEN <<[op |-> "mv", f |-> f, g |-> "moved/" \o stem \o ".xdmf"]>> ELSE <<>>
       ff == IF mv = <<>> THEN f ELSE "moved/" \o stem \o ".xdmf"
       ws == IF two THEN Weave(Series("w1", F, f, ka), Series("w2", G, g, kb), R(key, 7)) ELSE Series("w1", F, f, ka)
       rs == IF two THEN Weave(Reads("r1", ff, ka), Reads("r2", g, kb), R(key, 8))
             ELSE Weave(Reads("r1", ff, ka), Reads("r2", ff, ka), R(key, 8))
       mvok == ~two \/ mv = <<>>
       again == IF Chance(R(key, 21), 25) THEN Series("w1", F, ff, R(key, 30)) \o Reads("r3", ff, R(key, 30)) ELSE <<>>
       bad == IF Chance(R(key, 22), 10) THEN <<[op |-> "wopen", w |-> "wx", f |-> "x.xdmf", fid |-> "xdmf", mode |-> "hdf5"], ROpen("rx", "none.xdmf")>> ELSE <<>>
   IN [id |-> "series/" \o F.id \o "/" \o ToString(Shard) \o "/" \o ToString(k), fam |-> "series",
       ops |-> bad \o cd(0) \o ws \o cd(1) \o (IF two THEN <<>> ELSE mv) \o
               (IF two THEN Weave(Reads("r1", f, ka), Reads("r2", g, kb), R(key, 8)) ELSE rs)
               \o cd(2) \o (IF two THEN <<>> ELSE again)]
\* series as other programs write them: the mesh in the collection or beside it, in every step or once
ForeignCase(k) ==
   LET key == Mix(Mix(Seed, 57), 10 * k + Shard)
       F == Fid("xdmf")
       m == Bare(RandMesh(F, R(key, 1)))
       n == 1 + (R(key, 2) % 5)
       d == [op |-> "sforeign", f |-> "sub/f.xdmf", fid |-> F.id, m |-> m, place |-> Pick(<<"before", "after", "first", "each", "copy">>, R(key, 3)),
             how |-> Pick(<<<<"HDF">>, <<"XML">>, <<"Binary">>, <<"XML", "HDF">>, <<"HDF", "Binary", "XML">>>>, R(key, 4)), newkeys |-> Chance(R(key, 5), 50),
             dtkey |-> Pick(<<"NumberType", "DataType">>, R(key, 6)), wrap |-> Chance(R(key, 7), 40), timelast |-> Chance(R(key, 8), 40), lower |-> Chance(R(key, 10), 30),
             grid |-> Chance(R(key, 11), 20), note |-> Chance(R(key, 12), 50), ver |-> Pick(<<"3.0", "3.0", "3.1">>, R(key, 13)), default |-> Chance(R(key, 14), 30),
             steps |-> [s \in 1..n |-> [t |-> R(key, 20 + s) % 12, m |-> StepMesh(F, m, R(key, 30 + s), s)]]]
   IN [id |-> "series/foreign/" \o ToString(Shard) \o "/" \o ToString(k), fam |-> "series",
       ops |-> <<d, ROpen("r1", d.f), RMesh("r1")>> \o [j \in 1..n |-> RData("r1", n - j)] \o <<RClose("r1"), ROpen("r2", d.f), RMesh("r2"), RData("r2", 0), RClose("r2")>>]
Cases == [k \in 1..NRand |-> Case(k)] \o [k \in 1..(NRand \div 3) |-> ForeignCase(k)]
ASSUME ndJsonSerialize(Out, Cases)
ASSUME PrintT(<<"GENERATED", Len(Cases)>>)
=============================================================================
