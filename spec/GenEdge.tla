-------------------------------- MODULE GenEdge --------------------------------
(* Unusual but legal meshes: empty blocks, many blocks, many cells, a single   *)
(* cell on few points, coincident points, unused points, many arrays.          *)
EXTENDS GenLib
CONSTANTS Seed, NRand, NBig, Out, Shard, NShards

Ops(F, m) == <<New("a", m), Write("a", "x", F), Read("x", "b", F)>>
Case(F, name, m) == [id |-> "edge/" \o F.id \o "/" \o name, fam |-> "edge", ops |-> Ops(F, m)]

\* a block without cells at the first, a middle or the last place
EmptyAt(F, key) ==
   LET d == Dim(F, key)
       ts == BlockTypes(F, d, key)
       z == 1 + (R(key, 601) % Len(ts))
   IN MeshOf(F, d, ts, LAMBDA i : IF i = z THEN 0 ELSE 1 + (R(key, 40 + i) % 3), key)

ManyBlocks(F, key) ==
   LET d == Dim(F, key)
       P == Pool(F, d, key)
       n == IF F.dup THEN 11 + (R(key, 602) % 4) ELSE Len(P)
       ts == [i \in 1..n |-> IF F.dup THEN P[(R(key, 610 + i) % Len(P)) + 1] ELSE P[i]]
   IN MeshOf(F, d, ts, LAMBDA i : 1 + (R(key, 40 + i) % 2), key)

ManyCells(F, key) ==
   LET d == Dim(F, key)
       P == SelectSeq(Pool(F, d, key), LAMBDA t : NN(t) <= 8)
       t == Pick(IF P = <<>> THEN Pool(F, d, key) ELSE P, R(key, 603))
       \* over the sizes where counters and buffers overflow
       n == Pick(<<126, 127, 128, 129, 254, 255, 256, 257, 300, 511, 513>>, R(key, 604))
   IN MeshOf(F, d, IF F.dup THEN <<t, t>> ELSE <<t>>, LAMBDA i : IF i = 1 THEN n ELSE 3, key)

\* more points than cells use, and more than fit a byte / a block
ManyPoints(F, key) ==
   LET m == RandMesh(F, key)
       np == Len(m.pts)
       more == Pick(<<120, 250, 300, 1000>>, R(key, 605))
       ext(d) == [d EXCEPT !.r = d.r \o [i \in 1..more |->
                    IF IsIntDt(d.dt) /\ d.nc <= 1 THEN d.r[1 + ((i - 1) % np)]
                    ELSE IF d.n = "gmsh:dim_tags" THEN d.r[1 + ((i - 1) % np)]
                    ELSE d.r[1] + 5000 + i]]
   IN [m EXCEPT !.pts = m.pts \o [i \in 1..more |-> 2000 + i], !.pd = [i \in DOMAIN m.pd |-> ext(m.pd[i])]]

\* cells that use the last points of a long list
Shifted(F, key) ==
   LET m == ManyPoints(F, key)
       o == Len(m.pts) - Len(RandMesh(F, key).pts)
   IN [m EXCEPT !.blocks = [b \in DOMAIN m.blocks |-> [m.blocks[b] EXCEPT !.c =
         [i \in DOMAIN m.blocks[b].c |-> [j \in DOMAIN m.blocks[b].c[i] |-> m.blocks[b].c[i][j] + o]]]]]

\* one cell and only its own points
Tiny(F, key) ==
   LET d == Dim(F, key)
       P == Pool(F, d, key)
       t == IF Chance(R(key, 606), 50) THEN P[CHOOSE i \in DOMAIN P : \A j \in DOMAIN P : NN(P[i]) <= NN(P[j])] ELSE Pick(P, R(key, 607))
       np == NN(t)
       s == R(key, 608) % np
   IN MeshWith(F, d, np, <<[t |-> t, dt |-> CellDt(F, key), c |-> <<[j \in 1..np |-> (j + s) % np]>>]>>, key)

\* many arrays, with names that look like something else
OddNames(F) ==
   <<"UPPER", "v:1", "a-b", "1st", "(a)", "[0]", "%d", "{x}", "a;b", "#a", "*a", "a+b", "scalars", "10", "points", "cells", "a_R", "a.b.c", "disp_x", "offsets">>
   \o (IF F.fmt # "exodus" THEN <<"@@long40", "@@long90", "@@uni", "vertex_indices">> ELSE <<>>)
   \o (IF F.fmt \in {"vtu", "xdmf", "hmf", "med", "gmsh", "gmsh22", "h5m"} THEN <<"x y z", " a", "b ", "a'b">> ELSE <<>>)
   \o (IF F.fmt \in {"vtu", "xdmf", "med", "hmf"} THEN <<"@@quote", "@@back", "a&b">> ELSE <<>>)
ManyArrays(F, key) ==
   LET m == RandMesh(F, key)
       n == 8 + (R(key, 620) % 6)
       lab(s) == SelectSeq(s, LAMBDA d : d.n \in TagNames)
   IN [m EXCEPT !.pd = lab(m.pd) \o MkPdN(F, Len(m.pts), R(key, 621), n, OddNames(F)),
                !.cd = lab(m.cd) \o MkCdN(F, m.blocks, R(key, 622), n, OddNames(F))]

\* numbers at the edges of their type
SPECTOK == BIGTOK + 9990000
SpecRow(x, nc, dt, keep, r) ==
   IF ~Chance(r, 40) THEN x
   ELSE IF dt \in {"f8", "f4"} THEN SPECTOK + (r % 8)
   ELSE IF ~keep THEN x
   ELSE IF nc = 0 /\ dt = "i1" THEN Pick(<<-128, 127, -1, 0>>, r)
   ELSE IF nc = 0 /\ dt = "u1" THEN Pick(<<255, 128, 127, 0>>, r)
   ELSE IF nc = 0 /\ dt = "i2" THEN Pick(<<-32768, 32767, -1, 255>>, r)
   ELSE IF nc = 0 /\ dt = "u2" THEN Pick(<<65535, 32768, 32767, 256>>, r)
   ELSE IF dt \in {"i4", "u4", "i8", "u8"} THEN SPECTOK + (r % 8)
   ELSE x
EdgeValues(F, key) ==
   LET m == RandMesh(F, key)
       P(d, i) == IF d.n \in TagNames \/ d.n = PointLabel(F, m) THEN d
                  ELSE [d EXCEPT !.r = [j \in DOMAIN d.r |-> SpecRow(d.r[j], d.nc, d.dt, F.keepdt, R(key, 700 + 50 * i + j))]]
       C(d, i) == IF d.n \in TagNames \/ d.n = CellLabel(F, m) THEN d
                  ELSE [d EXCEPT !.r = [b \in DOMAIN d.r |-> [j \in DOMAIN d.r[b] |->
                          SpecRow(d.r[b][j], d.nc, d.dt, F.keepdt, R(key, 900 + 50 * i + 7 * b + j))]]]
   IN [m EXCEPT !.pd = [i \in DOMAIN m.pd |-> P(m.pd[i], i)], !.cd = [i \in DOMAIN m.cd |-> C(m.cd[i], i)]]

\* labels beyond small positive numbers
WideLabels == <<0, -1, 1, 127, 128, 255, 256, -300, 32767, 32768, 65535, 65536, 99999, 100000, 1234567>>
EdgeLabels(F, key) ==
   LET m == RandMesh(F, key)
       W(v) == Pick(WideLabels, v + (R(key, 630) % 15))
       own == IF F.fmt = "gmsh" THEN {"gmsh:physical"} ELSE TagNames \ {"gmsh:dim_tags"}
   IN [m EXCEPT !.pd = [i \in DOMAIN m.pd |-> IF m.pd[i].n \in own \/ m.pd[i].n = PointLabel(F, m)
                           THEN [m.pd[i] EXCEPT !.r = [j \in DOMAIN @ |-> W(@[j])], !.dt = "i8"] ELSE m.pd[i]],
                !.cd = [i \in DOMAIN m.cd |-> IF m.cd[i].n \in own \/ m.cd[i].n = CellLabel(F, m)
                           THEN [m.cd[i] EXCEPT !.r = [b \in DOMAIN @ |-> [j \in DOMAIN @[b] |-> W(@[b][j])]], !.dt = "i8"] ELSE m.cd[i]]]

\* many sets of all sizes, overlapping
SetSizes == <<0, 1, 2, 7, 8, 9, 10, 15, 16, 17, 24, 32, 33, 40, 64, 100>>
BigSetNames == <<"SETA", "grp1", "b_2", "S4", "S5", "nset-6", "E7", "x.8", "S9", "S10", "S11", "set_twelve_with_a_long_name">>
Run(n, k, key) == LET s == R(key, 1) % Max2(n, 1) IN SetToSortSeq({(s + i) % n : i \in 0..(Min2(k, n) - 1)}, <)
ManySets(F, key) ==
   LET m == IF Chance(R(key, 640), 50) THEN ManyCells(F, key) ELSE ManyPoints(F, key)
       np == Len(m.pts)
       ns == 3 + (R(key, 641) % 10)
   IN [m EXCEPT !.ps = IF F.setmode \notin {"ps", "ps+cs", "data"} THEN <<>> ELSE
                       [i \in 1..ns |-> [n |-> BigSetNames[i], m |-> IF np = 0 THEN <<>> ELSE Run(np, Pick(SetSizes, R(key, 650 + i)), R(key, 670 + i))]],
                !.cs = IF F.setmode \notin {"cs", "ps+cs", "data"} THEN <<>> ELSE
                       [i \in 1..ns |-> [n |-> BigSetNames[i], m |-> [b \in DOMAIN m.blocks |->
                          Run(Len(m.blocks[b].c), Pick(SetSizes, R(key, 690 + 5 * i + b)), R(key, 710 + 5 * i + b))]]]]

\* more points than 16 bits number, cells that use the last ones, more cells than 16 bits number
Plain(F, m) == IF F.fmt = "gmsh" THEN [m EXCEPT !.pd = <<>>, !.cd = <<>>, !.gp = <<>>] ELSE [m EXCEPT !.gp = <<>>]
Big(F, key) ==
   LET d == Dim(F, key)
       P == SelectSeq(Pool(F, d, key), LAMBDA t : NN(t) <= 8)
       t == Pick(IF P = <<>> THEN Pool(F, d, key) ELSE P, R(key, 603))
       np == 65540 + (R(key, 660) % 500)
       nc == IF NN(t) > 4 \/ F.shape = "su2" \/ ~Chance(R(key, 661), 40) THEN 5 ELSE 65537 + (R(key, 662) % 300)
       b == [t |-> t, dt |-> CellDt(F, key), c |-> [i \in 1..nc |-> [j \in 1..NN(t) |-> (np - 1 - 7 * (i - 1) - 3 * (j - 1)) % np]]]
       k == CHOOSE k \in key..(key + 500) : k = key + 500 \/ (Narr(R(k, 50)) = 1 /\ Narr(R(k, 70)) = 1 /\ R(k, 210) % 4 <= 1 /\ R(k, 211) % 4 <= 1)
       D(s) == [i \in DOMAIN s |-> IF s[i].dt = "f4" THEN [s[i] EXCEPT !.dt = "f8"] ELSE s[i]]     \* so many numbers differ
   IN Plain(F, [MeshWith(F, d, np, <<b>>, k) EXCEPT !.pdt = "f8", !.prof = "plain", !.ps = <<>>, !.cs = <<>>, !.pd = D(@), !.cd = D(@)])

Kinds == <<"empty", "blocks", "cells", "points", "shifted", "tiny", "arrays", "values", "labels", "sets">>
BigCases(F, fi) == IF F.pdig < 16 THEN <<>> ELSE
   [k \in 1..NBig |-> Case(F, "big-" \o ToString(k), Big(F, Mix(Mix(Seed, 40 + k), 9000 + fi)))]
Make(F, kind, key) ==
   CASE kind = "empty" -> EmptyAt(F, key)
     [] kind = "blocks" -> ManyBlocks(F, key)
     [] kind = "cells" -> ManyCells(F, key)
     [] kind = "tiny" -> Tiny(F, key)
     [] kind = "points" -> ManyPoints(F, key)
     [] kind = "arrays" -> ManyArrays(F, key)
     [] kind = "values" -> EdgeValues(F, key)
     [] kind = "labels" -> EdgeLabels(F, key)
     [] kind = "sets" -> ManySets(F, key)
     [] OTHER -> Shifted(F, key)

Cases1(F, fi) == BigCases(F, fi) \o FlattenSeq([q \in DOMAIN Kinds |->
   [k \in 1..NRand |-> Case(F, Kinds[q] \o "-" \o ToString(k), Make(F, Kinds[q], Mix(Mix(Seed, 100 * q + k), 6000 + fi)))]])

Mine == SelectSeq([i \in DOMAIN Variants |-> i], LAMBDA i : i % NShards = Shard)
Cases == FlattenSeq([j \in DOMAIN Mine |-> Cases1(Variants[Mine[j]], Mine[j])])
ASSUME ndJsonSerialize(Out, Cases)
ASSUME PrintT(<<"GENERATED", Len(Cases)>>)
=============================================================================
