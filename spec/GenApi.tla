-------------------------------- MODULE GenApi --------------------------------
(* Behaviours of the mesh object: building, views, copies, conversions.      *)
EXTENDS GenLib, MeshApi
CONSTANTS Seed, NRand, Out, Shard, NShards

FApi == V("api", "api", "api", "", NoKw, VtkTypes, [pnc |-> AnyNc, cnc |-> AnyNc, sp |-> TRUE, d2 |-> "keep"])
SetPool == << [n |-> "SETA", p |-> <<"SETA">>], [n |-> "grp1", p |-> <<"grp1">>], [n |-> "b_2", p |-> <<"b_2">>],
              [n |-> "wall", p |-> <<"wall">>], [n |-> "in-let", p |-> <<"in", "let">>], [n |-> "a", p |-> <<"a">>],
              [n |-> "top 1", p |-> <<"top 1">>] >>
ArrPool == << [n |-> "lab", p |-> <<"lab">>], [n |-> "mat-id", p |-> <<"mat", "id">>], [n |-> "x-y-z", p |-> <<"x", "y", "z">>],
              [n |-> "u-u", p |-> <<"u", "u">>], [n |-> "-w", p |-> <<"", "w">>] >>

\* owner of element j (0-based) among n sets: 0 = none; style decides coverage
Owner(style, j, n, key) ==
   CASE style = "partition" -> IF j < n THEN j + 1 ELSE 1 + (R(key, 300 + j) % n)
     [] OTHER -> R(key, 300 + j) % (n + 1)
InSet(style, i, j, n, key) == Owner(style, j, n, key) = i \/ (style = "overlap" /\ Chance(R(key, 700 + 31 * i + j), 30))
Style(key) == Pick(<<"partition", "partition", "partial", "overlap">>, R(key, 260))
NSets(key) == 1 + (R(key, 261) % 4)
PoolAt(key, i) == SetPool[((R(key, 262) + i) % Len(SetPool)) + 1]

ApiPs(np, key) ==
   LET n == NSets(key) st == Style(key) IN
   [i \in 1..n |-> [n |-> PoolAt(key, i).n, m |-> SelectSeq([j \in 1..np |-> j - 1], LAMBDA j : InSet(st, i, j, n, key))]]
ApiCs(blocks, key) ==
   LET n == NSets(key) st == Style(key)
       off(b) == SumSeq([q \in 1..(b - 1) |-> Len(blocks[q].c)])
   IN [i \in 1..n |-> [n |-> PoolAt(key, i).n,
         m |-> [b \in DOMAIN blocks |->
            LET x == SelectSeq([j \in DOMAIN blocks[b].c |-> j - 1], LAMBDA j : InSet(st, i, off(b) + j, n, key))
            IN IF x = <<>> /\ Chance(R(key, 500 + 10 * i + b), 60) THEN <<-1>> ELSE x]]]
AllParts(key) == FlattenSeq([i \in 1..NSets(key) |-> PoolAt(key, i).p])

\* integer arrays for the conversion
Val(key, i, span) == (R(key, 900 + i) % span) - (IF Chance(R(key, 899), 30) THEN 1 ELSE 0)
Span(key) == 1 + (R(key, 263) % 4)
IntDt(key) == Pick(<<"i8", "i4", "u1", "u8", "i2">>, R(key, 264))
NonNeg(dt, v) == IF dt \in {"u1", "u8"} /\ v < 0 THEN 3 ELSE v
ApiName(key, q) == ArrPool[((R(key, 265) + q) % Len(ArrPool)) + 1]
ApiPd(np, key) == [n |-> ApiName(key, 0).n, nc |-> 0, dt |-> IntDt(key), r |-> [i \in 1..np |-> NonNeg(IntDt(key), Val(key, i, Span(key)))]]
ApiCd(blocks, key) ==
   [n |-> ApiName(key, 1).n, nc |-> 0, dt |-> IntDt(key),
    r |-> [b \in DOMAIN blocks |-> [i \in DOMAIN blocks[b].c |-> NonNeg(IntDt(key), Val(R(key, b), i, Span(key)))]]]

ApiMesh(key) ==
   LET m == RandMesh(FApi, key) np == Len(m.pts) k == R(key, 5) IN
   [m EXCEPT !.ps = ApiPs(np, R(k, 1)), !.cs = ApiCs(m.blocks, R(k, 2)),
             !.pd = Append(m.pd, ApiPd(np, R(k, 3))), !.cd = Append(m.cd, ApiCd(m.blocks, R(k, 4)))]

Distinct(m) == \A i, j \in DOMAIN m.blocks : i = j \/ m.blocks[i].t # m.blocks[j].t
Form(m, r) == Pick(IF Distinct(m) THEN <<"block", "tuple", "lists", "dict">> ELSE <<"block", "tuple", "lists">>, r)
NewAs(s, m, form) == [op |-> "new", s |-> s, m |-> m, form |-> form, chk |-> 1]
Views(s, m, key) == [op |-> "views", s |-> s,
   ask |-> RangeOf(TypeOrder(m)) \cup {Pick(VtkTypes, R(key, 21)), Pick(VtkTypes, R(key, 22))},
   pairs |-> {<<d.n, t>> : d \in RangeOf(m.cd), t \in RangeOf(TypeOrder(m))}]
Look(s) == [op |-> "look", s |-> s]
Copy(s, s2) == [op |-> "copy", s |-> s, s2 |-> s2]
Poke(s, k) == [op |-> "poke", s |-> s, kind |-> k]
P2D(s, name, join) == [op |-> "p2d", s |-> s, name |-> name, join |-> join]
C2D(s, name) == [op |-> "c2d", s |-> s, name |-> name]
PD2S(s, key, parts) == [op |-> "pd2s", s |-> s, key |-> key, parts |-> parts]
CD2S(s, key, parts) == [op |-> "cd2s", s |-> s, key |-> key, parts |-> parts]

ViewCase(k) ==
   LET key == Mix(Mix(Seed, 31), 10 * k + Shard)
       m == ApiMesh(key)
       pk == <<"points", "cells", "pd", "cd", "fd", "ps", "cs", "keys", "blocks", "sets">>
   IN [id |-> "views/" \o ToString(Shard) \o "/" \o ToString(k), fam |-> "views",
       ops |-> <<NewAs("a", m, Form(m, R(key, 23))), Views("a", m, key), Look("a"), Copy("a", "b"), Look("b"), Views("b", m, key),
                 Poke("b", Pick(pk, R(key, 24))), Look("a"), Views("a", m, key), Copy("a", "c"),
                 Poke("a", Pick(pk, R(key, 25))), Look("c")>>]

BadMesh(m, kind, key) ==
   LET longer(r) == Append(r, r[1])
       pd1 == m.pd[Len(m.pd)] cd1 == m.cd[Len(m.cd)]
       b == 1 + (R(key, 26) % Len(m.blocks))
       setpd(r) == [m EXCEPT !.pd[Len(m.pd)] = [pd1 EXCEPT !.r = r]]
       setcd(r) == [m EXCEPT !.cd[Len(m.cd)] = [cd1 EXCEPT !.r = r]]
   IN CASE kind = 1 -> setpd(longer(pd1.r))
        [] kind = 2 -> setpd(Tail(pd1.r))
        [] kind = 3 -> setpd(<<>>)
        [] kind = 4 -> setcd([cd1.r EXCEPT ![b] = longer(@)])
        [] kind = 5 -> setcd([cd1.r EXCEPT ![b] = Tail(@)])
        [] kind = 6 -> setcd(longer(cd1.r))
        [] kind = 7 -> setcd(Tail(cd1.r))
        [] kind = 8 -> setcd(<<FlattenSeq(cd1.r)>>)          \* all rows in one go
        [] kind = 9 -> IF Len(cd1.r) > 1 THEN setcd([cd1.r EXCEPT ![1] = cd1.r[2], ![2] = cd1.r[1]]) ELSE m
        [] kind = 10 -> [m EXCEPT !.blocks[b].c = longer(@)]
        [] kind = 11 -> [m EXCEPT !.blocks = Append(@, m.blocks[1])]
        [] kind = 12 -> [m EXCEPT !.cs = <<>>, !.ps = <<>>]
BadCase(k) ==
   LET key == Mix(Mix(Seed, 37), 10 * k + Shard)
       m == ApiMesh(key)
       x == BadMesh(m, 1 + (k % 12), key)
   IN [id |-> "bad/" \o ToString(Shard) \o "/" \o ToString(k), fam |-> "bad", ops |-> <<NewAs("a", x, Form(x, R(key, 23)))>>]

\* moving back and forth
ConvCase(k) ==
   LET key == Mix(Mix(Seed, 41), 10 * k + Shard)
       m == ApiMesh(key)
       kp == R(R(key, 5), 1) kc == R(R(key, 5), 2)
       jp == Pick(<<"-", "-", "-", "_">>, R(key, 27))
       np == JoinSets(m.ps, jp) nc == JoinSets(m.cs, "-")
       pparts == IF jp = "-" THEN AllParts(kp) ELSE <<np>>
       ap == ApiName(R(R(key, 5), 3), 0) ac == ApiName(R(R(key, 5), 4), 1)
       plain == SelectSeq(m.ps, LAMBDA s : s.n = "in-let") = <<>>
       back == <<P2D("a", "", jp)>> \o (IF jp = "-" \/ plain THEN <<PD2S("a", np, pparts)>> ELSE <<>>)
       named == <<P2D("a", "num", "-"), PD2S("a", "num", <<"num">>)>>
       cback == <<C2D("a", ""), CD2S("a", nc, AllParts(kc))>>
       cnamed == <<C2D("a", "num"), CD2S("a", "num", <<"num">>)>>
       fl == SelectSeq(m.pd, LAMBDA d : IsFloatDt(d.dt)) cfl == SelectSeq(m.cd, LAMBDA d : IsFloatDt(d.dt))
       wrong == <<PD2S("a", IF fl = <<>> THEN "nosuch" ELSE fl[1].n, <<"nosuch">>), CD2S("a", IF cfl = <<>> THEN "nosuch" ELSE cfl[1].n, <<"nosuch">>)>>
       clr == [m EXCEPT !.ps = <<>>, !.cs = <<>>]
       seqs == << back \o cback, cback \o back, named \o cnamed \o <<P2D("a", "again", "-"), C2D("a", "again")>>,
                  <<PD2S("a", ap.n, ap.p), CD2S("a", ac.n, ac.p)>>,
                  wrong \o back, wrong \o <<CD2S("a", ac.n, ac.p)>> \o wrong,
                  <<Copy("a", "b")>> \o back \o <<Look("b"), CD2S("b", ac.n, ac.p), Look("a")>> >>
       q == (k % (Len(seqs) + 1)) + 1
   IN [id |-> "conv/" \o ToString(Shard) \o "/" \o ToString(k), fam |-> "conv",
       ops |-> IF q <= Len(seqs) THEN <<NewAs("a", m, Form(m, R(key, 23)))>> \o seqs[q] \o <<Look("a")>>
               ELSE <<NewAs("a", clr, "block"), P2D("a", "", "-"), C2D("a", ""), PD2S("a", ap.n, ap.p), CD2S("a", ac.n, ac.p),
                      P2D("a", "zz", "-"), C2D("a", "zz"), Look("a")>>]

\* very many sets, and integers of every size
ManyCase(k) ==
   LET key == Mix(Mix(Seed, 43), 10 * k + Shard)
       n == Pick(<<130, 260, 300>>, k)
       m0 == ApiMesh(key)
       sizes == <<n \div 3, 2, n - (n \div 3) - 9, 7>>
       ty == <<"triangle", "vertex", "line", "triangle">>
       blocks == [b \in 1..4 |-> [t |-> ty[b], dt |-> "i8", c |-> [i \in 1..sizes[b] |-> [j \in 1..NN(ty[b]) |-> (5 * i + 2 * j + b) % n]]]]
       off(b) == SumSeq([q \in 1..(b - 1) |-> sizes[q]])
       wild(i) == LET v == R(key, 4000 + i) IN CASE v % 5 = 0 -> -(v % 1900000) [] v % 5 = 1 -> 127 + (v % 4) [] v % 5 = 2 -> 255 + (v % 3) [] v % 5 = 3 -> 32766 + (v % 5) [] OTHER -> v % 1900000
       m == [m0 EXCEPT !.pts = [i \in 1..n |-> i], !.pdt = "f8", !.prof = "plain", !.blocks = blocks, !.sg = [b \in 1..4 |-> [i \in 1..sizes[b] |-> 0]],
               !.ps = [i \in 1..n |-> [n |-> "S" \o ToString(i), m |-> <<(7 * i + 3) % n>>]],
               !.cs = [i \in 1..n |-> [n |-> "C" \o ToString(i), m |-> [b \in 1..4 |-> IF i > off(b) /\ i <= off(b) + sizes[b] THEN <<i - off(b) - 1>> ELSE IF i % 3 = 0 THEN <<-1>> ELSE <<>>]]],
               !.pd = << [n |-> "wild", nc |-> 0, dt |-> "i8", r |-> [i \in 1..n |-> wild(i)]] >>,
               !.cd = << [n |-> "wild", nc |-> 0, dt |-> "i8", r |-> [b \in 1..4 |-> [i \in 1..sizes[b] |-> wild(1000 * b + i)]]] >>]
   IN [id |-> "many/" \o ToString(Shard) \o "/" \o ToString(k), fam |-> "conv",
       ops |-> <<NewAs("a", m, Form(m, R(key, 23))), PD2S("a", "wild", <<"wild">>), CD2S("a", "wild", <<"wild">>)>>
               \o (IF k % 2 = 0 THEN <<>> ELSE <<NewAs("a", m, "block")>>)
               \o <<P2D("a", "num", "-"), C2D("a", "num"), PD2S("a", "num", <<"num">>), CD2S("a", "num", <<"num">>), Look("a")>>]

Cases == [k \in 1..(IF NRand > 100 THEN 6 ELSE 3) |-> ManyCase(k)] \o [k \in 1..NRand |-> ViewCase(k)] \o [k \in 1..NRand |-> BadCase(k)] \o [k \in 1..(2 * NRand) |-> ConvCase(k)]

\* the design itself: there and back gives the same sets whenever they partition the mesh
PsAs(m) == [i \in DOMAIN m.ps |-> RangeOf(m.ps[i].m)]
CsAs(m) == [i \in DOMAIN m.cs |-> FlatSet(m, m.cs[i])]
PlainName(n) == n # "in-let"
NoneToEmpty(cs) == [i \in DOMAIN cs |-> [cs[i] EXCEPT !.m = [b \in DOMAIN @ |-> IF @[b] = <<-1>> THEN <<>> ELSE @[b]]]]
ASSUME \A k \in 1..NRand :
   LET m == ApiMesh(Mix(Mix(Seed, 41), 10 * k + Shard)) IN
   /\ Partition(PsAs(m), 0..(Len(m.pts) - 1)) => BackPoints(m) = m.ps
   /\ Partition(CsAs(m), 0..(NumCells(m) - 1)) => BackCells(m) = NoneToEmpty(m.cs)
ASSUME ndJsonSerialize(Out, Cases)
ASSUME PrintT(<<"GENERATED", Len(Cases)>>)
=============================================================================
