-------------------------------- MODULE GenLib --------------------------------
(***************************************************************************)
(* Generation of behaviours of the specification: deterministic (seeded)   *)
(* pseudo-random meshes that a given format variant promises to keep.      *)
(***************************************************************************)
EXTENDS RoundTrip, Json, IOUtils
CONSTANT Focus    \* "geo" | "data" | "tag" | "all": what the meshes are rich in

MM == 46337
Mix(a, b) == LET x == ((a % MM) * 30103 + (b % MM) * 171 + 12345) % MM IN (((x * x) % MM) + 7 * x + b) % MM
R(key, i) == Mix(Mix(key, 17 * i + 3), (i % 30011) * (i % 30011) + 11)
Pick(s, r) == s[(r % Len(s)) + 1]
Chance(r, p) == (r % 100) < p                       \* true in p of 100 cases

Primes == <<5,7,11,13,17,23,29,31,37,43,53,67,83,101,127,131,149,173,199,223,251,277,307,353,401,521,557,743,1009,1361,1409,1451>>
PrimeAbove(n, extra) ==
   LET i == CHOOSE i \in DOMAIN Primes : Primes[i] > n /\ (i = 1 \/ Primes[i-1] <= n)
   IN Primes[Min2(i + extra, Len(Primes))]

\* a block of nc cells over np points (np prime, so the nodes of a cell are distinct)
MkBlock(t, dt, nc, np, key) ==
   [t |-> t, dt |-> dt,
    c |-> [i \in 1..nc |->
            LET a == R(key, 2 * i) % np
                s == 1 + (R(key, 2 * i + 1) % (np - 1))
            IN [j \in 1..NN(t) |-> (a + s * (j - 1)) % np]]]

BIGTOK == 10000000
\* rows of an array: opaque tokens for floats, literal integers for scalar integers
MkRows(n, nc, dt, key, base) ==
   [i \in 1..n |->
      IF IsIntDt(dt) /\ nc <= 1 THEN
         LET v == R(key, i) % 23
         IN IF dt \in {"u1","i1"} THEN v * 5
            ELSE IF dt \in {"i2"} THEN (v - 7) * 301
            ELSE IF dt \in {"u2"} THEN v * 2801
            ELSE IF dt \in {"i4", "i8"} THEN (v - 5) * 8111 + i
            ELSE v * 40009 + i
      ELSE BIGTOK + base * 10000 + i]

Label(i, key) == LET r == R(key, i) IN IF Chance(r, 8) THEN 300 + (r % 400) ELSE 1 + (r % 6)
MkLabels(n, key) == [i \in 1..n |-> Label(i, key)]

NamePool(F) == <<"a", "temp", "u_vec", "Phi2", "long_name_of_an_array", "B.1", "p", "q0">>
     \o (IF F.sp /\ F.fmt \in {"vtu", "xdmf", "hmf", "med", "gmsh", "gmsh22", "exodus", "h5m"} THEN <<"my data">> ELSE <<>>)
     \o (IF F.fmt \in {"vtu", "xdmf"} THEN <<"x&y<z>">> ELSE <<>>)

\* how many components / which type an array gets
SeqOfSet(S) == SetToSortSeq(S, <)
Dts(S) == SelectSeq(<<"f8","f4","i8","i4","i2","u1","i1","u2","u4","u8">>, LAMBDA d : d \in S)

ArrNc(S, key) == LET c == Pick(SeqOfSet(S), R(key, 1)) IN IF c = 1 /\ Chance(R(key, 2), 70) THEN 0 ELSE c
ArrDt(S, key) == IF Chance(R(key, 3), 45) /\ "f8" \in S THEN "f8" ELSE Pick(Dts(S), R(key, 4))
ScalarFor(nc, F) == IF nc = 1 /\ F.fmt \in {"ply","tecplot","dolfin-xml","tetgen"} THEN 0 ELSE nc

Narr(r) == CASE Focus = "data" -> 1 + (r % 4)
             [] Focus = "geo" -> IF r % 10 < 8 THEN 0 ELSE 1
             [] r % 10 < 3 -> 0 [] r % 10 < 6 -> 1 [] r % 10 < 9 -> 2 [] OTHER -> 3

MkPdN(F, np, key, n, pool) ==
   IF F.pnc = {} THEN <<>> ELSE
   [i \in 1..n |->
      LET k == R(key, 60 + i)
          nc == ScalarFor(ArrNc(F.pnc, k), F)
          dt == ArrDt(F.pdts, k)
      IN [n |-> pool[((R(key, 51) + i) % Len(pool)) + 1],
          nc |-> nc, dt |-> dt, r |-> MkRows(np, nc, dt, k, i)]]
MkPd(F, np, key) == MkPdN(F, np, key, Narr(R(key, 50)), NamePool(F))

MkCdN(F, blocks, key, n, pool) ==
   IF F.cnc = {} THEN <<>> ELSE
   [i \in 1..n |->
      LET k == R(key, 80 + i)
          nc == ScalarFor(ArrNc(F.cnc, k), F)
          dt == ArrDt(F.cdts, k)
      IN [n |-> pool[((R(key, 71) + i) % Len(pool)) + 1],
          nc |-> nc, dt |-> dt,
          r |-> [b \in DOMAIN blocks |-> MkRows(Len(blocks[b].c), nc, dt, R(k, b), 10 + 10 * i + b)]]]
MkCd(F, blocks, key) == MkCdN(F, blocks, key, Narr(R(key, 70)), NamePool(F))

\* labels
LabelPct == CASE Focus = "tag" -> 85 [] Focus = "geo" -> 20 [] OTHER -> 50
MkPointLabel(F, np, key) ==
   LET lab(n) == <<[n |-> n, nc |-> 0, dt |-> Pick(<<"i8","i4">>, R(key, 5)), r |-> MkLabels(np, R(key, 90))]>>
   IN IF ~Chance(R(key, 91), LabelPct) THEN <<>> ELSE
      CASE F.pref # "" -> lab(Pick(<<F.pref, "mark", "zone id">>, R(key, 92)))
        [] F.fmt = "med" -> lab("point_tags")
        [] F.fmt = "nastran" -> lab("nastran:ref")
        [] F.fmt = "tetgen" -> lab("tetgen:ref")
        [] OTHER -> <<>>

MkCellLabel(F, blocks, key) ==
   LET rows(q) == [b \in DOMAIN blocks |-> MkLabels(Len(blocks[b].c), R(key, q + b))]
       lab(n, q) == <<[n |-> n, nc |-> 0, dt |-> Pick(<<"i8","i4">>, R(key, q)), r |-> rows(q)]>>
       const(n, q) == <<[n |-> n, nc |-> 0, dt |-> "i8",
                         r |-> [b \in DOMAIN blocks |-> [i \in DOMAIN blocks[b].c |-> Label(b, R(key, q))]]]>>
       ent == <<[n |-> "gmsh:geometrical", nc |-> 0, dt |-> "i8",
                 r |-> [b \in DOMAIN blocks |-> [i \in DOMAIN blocks[b].c |-> b]]]>>
       on == Chance(R(key, 101), LabelPct)
   IN CASE F.cref # "" -> IF on THEN lab(Pick(<<F.cref, "mat", "region">>, R(key, 102)), 110) ELSE <<>>
        [] F.fmt = "su2" -> IF on THEN lab("su2:tag", 110) ELSE <<>>
        [] F.fmt = "med" -> IF on THEN lab("cell_tags", 110) ELSE <<>>
        [] F.fmt = "nastran" -> IF on THEN lab("nastran:ref", 110) ELSE <<>>
        [] F.fmt = "tetgen" -> IF on THEN lab("tetgen:ref", 110) ELSE <<>>
        [] F.fmt = "gmsh22" -> IF on THEN lab("gmsh:physical", 110) \o lab("gmsh:geometrical", 140) ELSE <<>>
        [] F.fmt = "gmsh" /\ F.via = "" ->
             IF on \/ Len(blocks) > 1 THEN (IF Chance(R(key, 103), 50) THEN const("gmsh:physical", 110) ELSE <<>>) \o ent ELSE <<>>
        [] OTHER -> <<>>

\* gmsh 4.1: entities; every block owns at least one node
NeedsEntities(F, blocks, key) ==
   F.shape = "gmsh41" /\ F.via = "" /\ (Chance(R(key, 101), LabelPct) \/ Len(blocks) > 1)
MkDimTags(F, blocks, np, key) ==
   IF ~NeedsEntities(F, blocks, key) THEN <<>> ELSE
   <<[n |-> "gmsh:dim_tags", nc |-> 2, dt |-> "i8",
      r |-> [i \in 1..np |-> LET b == IF i <= Len(blocks) THEN i ELSE 1 + (R(key, 200 + i) % Len(blocks))
                             IN TopDim(blocks[b].t) * 1000 + b]]>>

SetNames == <<"SETA", "grp1", "b_2">>
MkPs(F, np, key) ==
   IF F.setmode \notin {"ps", "ps+cs", "data"} THEN <<>> ELSE
   [i \in 1..(R(key, 210) % 4) |->
      [n |-> SetNames[i], m |-> SelectSeq([j \in 1..np |-> j - 1], LAMBDA j : R(key, 220 + j) % 5 = i)]]
MkCs(F, blocks, key) ==
   IF F.setmode \notin {"cs", "ps+cs", "data"} THEN <<>> ELSE
   [i \in 1..(R(key, 211) % 4) |->
      [n |-> SetNames[i],
       m |-> [b \in DOMAIN blocks |->
               SelectSeq([j \in DOMAIN blocks[b].c |-> j - 1], LAMBDA j : R(key, 400 + 40 * b + j) % 4 = i)]]]

MkFd(F, blocks, key) ==
   IF F.fmt = "netgen" /\ Chance(R(key, 240), 50)
   THEN [i \in 1..(1 + (R(key, 241) % 4)) |-> [n |-> <<"inlet", "Body", "w_2", "outer-1">>[i], v |-> <<3 * i - (R(key, 241 + i) % 3), R(key, 246 + i) % 4>>]]
   ELSE IF F.fmt \notin {"gmsh", "gmsh22"} \/ ~Chance(R(key, 240), 40) THEN <<>> ELSE
   [i \in 1..(1 + (R(key, 241) % 3)) |->
      [n |-> <<"inlet", "wall 2", "Body">>[i],
       v |-> IF i <= Len(blocks) /\ Chance(R(key, 246 + i), 60)        \* name a physical group in use
             THEN <<Label(i, R(key, 110)), TopDim(blocks[i].t)>> ELSE <<10 + i, 1 + (R(key, 241 + i) % 3)>>]]
MkGp(F, np, key) ==
   IF F.fmt \notin {"gmsh", "gmsh22"} \/ ~Chance(R(key, 250), 25) THEN <<>> ELSE
   [i \in 1..(1 + (R(key, 251) % 2)) |->
      [dim |-> 1 + (R(key, 252 + i) % 2), s |-> i, m |-> i + 3,
       aff |-> IF Chance(R(key, 255 + i), 50) THEN BIGTOK + 777 + i ELSE 0,
       pairs |-> [j \in 1..(1 + (R(key, 258) % 3)) |-> <<(i + j) % np, (i + 2 * j + 1) % np>>]]]

---------------------------------------------------------------------------
\* types a mesh for F may use, given the spatial dimension and a key
Pool(F, dim, key) ==
   LET lim == IF Chance(R(key, 1), 80) THEN 27 ELSE 64
       ok == SelectSeq(F.types, LAMBDA t : NN(t) <= lim)
   IN CASE F.shape = "dolfin" -> <<IF dim = 2 \/ Chance(R(key, 2), 50) THEN "triangle" ELSE "tetra">>
        [] F.shape = "su2" -> IF dim = 2 THEN <<"triangle","quad","line">> ELSE <<"tetra","hexahedron","wedge","pyramid","triangle","quad">>
        [] F.shape = "tecplot" ->
             LET r == R(key, 2) % 10 IN
             IF r < 2 THEN <<"line">> ELSE IF r < 6 \/ dim = 2 THEN <<"triangle","quad">>
             ELSE <<"tetra","hexahedron","pyramid","wedge">>
        [] dim = 2 -> LET q == SelectSeq(ok, LAMBDA t : TopDim(t) <= 2) IN IF q = <<>> THEN ok ELSE q
        [] OTHER -> ok

NBlocks(r) == CASE r % 20 < 6 -> 1 [] r % 20 < 12 -> 2 [] r % 20 < 18 -> 3 [] OTHER -> 5
NCells(r) == CASE r % 20 < 5 -> 1 [] r % 20 < 10 -> 2 [] r % 20 < 14 -> 3 [] r % 20 < 17 -> 5 [] r % 20 < 19 -> 9 [] OTHER -> 23

Dim(F, key) == IF F.d2 = "only" THEN 2 ELSE IF F.d2 # "no" /\ Chance(R(key, 7), 35) THEN 2 ELSE 3

BlockTypes(F, dim, key) ==
   LET P == Pool(F, dim, key)
       nb == NBlocks(R(key, 8))
   IN IF ~F.dup THEN LET n == Min2(nb, Len(P)) s == R(key, 9) IN [i \in 1..n |-> P[((s + i) % Len(P)) + 1]]
      ELSE LET few == 1 + (R(key, 10) % 3)      \* few distinct types: repetitions become likely
           IN [i \in 1..nb |-> P[((R(key, 11) + (R(key, 20 + i) % few)) % Len(P)) + 1]]

SizeExtra(r) == CASE r % 10 < 6 -> r % 2 [] r % 10 < 9 -> 2 [] OTHER -> 5

Prof(F, key) == Pick(F.profs, R(key, 13))

CellDt(F, key) == IF Chance(R(key, 14), 25) /\ "i4" \in F.cndts THEN "i4" ELSE "i8"
MeshWith0(F, dim, np, blocks, key) ==
   LET shift == R(key, 15) % 900
       dup == Chance(R(key, 16), 10)
   IN [dim |-> dim,
       pts |-> [i \in 1..np |-> IF dup /\ i = np THEN 1 + shift ELSE i + shift],
       pdt |-> IF Chance(R(key, 17), 20) /\ "f4" \in F.ptdts THEN "f4" ELSE "f8",
       prof |-> Prof(F, key), lay |-> "c",
       blocks |-> blocks,
       pd |-> MkPointLabel(F, np, key) \o MkPd(F, np, key) \o MkDimTags(F, blocks, np, key),
       cd |-> MkCellLabel(F, blocks, key) \o MkCd(F, blocks, key),
       fd |-> MkFd(F, blocks, key), ps |-> MkPs(F, np, key), cs |-> MkCs(F, blocks, key),
       gp |-> MkGp(F, np, key)]

\* MED: families, numbers with the names of the groups they belong to
FamNames == <<"top", "left side", "all", "A.B-C", "z_9", "a name much longer than sixteen characters, up to eighty of them are possible...">>
MkFams(sign, key) ==
   [i \in 1..(R(key, 1) % 4) |-> [i |-> sign * (2 * i + (R(key, 2) % 2) * 900),
                                 n |-> [j \in 1..(1 + (R(key, 10 + i) % 3)) |-> FamNames[((R(key, 20 + i) + j) % 6) + 1]]]]
MeshWith(F, dim, np, blocks, key) ==
   LET m == MeshWith0(F, dim, np, blocks, key)
   IN IF F.fmt = "med" /\ Chance(R(key, 950), 50) THEN [mt |-> [p |-> MkFams(1, R(key, 951)), c |-> MkFams(-1, R(key, 952))]] @@ m
      ELSE IF F.fmt = "netgen" /\ Chance(R(key, 950), 30)
      THEN [ni |-> [p |-> [i \in 1..(1 + (R(key, 951) % 4)) |-> <<1 + (R(key, 952 + i) % np), 1 + (R(key, 960 + i) % np), 1 + (R(key, 970 + i) % 3)>>],
                    t |-> [i \in 1..(1 + (R(key, 953) % 3)) |-> 1 + (R(key, 980 + i) % 4)]]] @@ m
      ELSE m

\* write_points_cells cannot pass them on
NoFams(m) == [x \in DOMAIN m \ {"mt", "ni"} |-> m[x]]

MeshOf(F, dim, types, ncell(_), key) ==
   LET mx == CHOOSE n \in {NN(types[i]) : i \in DOMAIN types} : \A i \in DOMAIN types : NN(types[i]) <= n
       np == PrimeAbove(Max2(mx, 4), SizeExtra(R(key, 12)))
       blocks == [i \in DOMAIN types |-> MkBlock(types[i], CellDt(F, key), ncell(i), np, R(key, 30 + i))]
   IN MeshWith(F, dim, np, blocks, key)

RandMesh(F, key) ==
   LET d == Dim(F, key) IN MeshOf(F, d, BlockTypes(F, d, key), LAMBDA i : NCells(R(key, 40 + i)), key)

---------------------------------------------------------------------------
(* Operations of a scenario (the alphabet shared with the driver)          *)
New(s, m) == [op |-> "new", s |-> s, m |-> m]
Write(s, f, F) == [op |-> "write", s |-> s, f |-> f \o F.ext, fid |-> F.id, fmt |-> F.fmt, via |-> F.via, kw |-> F.kw]
Decode(f, F) == [op |-> "decode", f |-> f \o F.ext, fid |-> F.id]
Read(f, s, F) == [op |-> "read", s |-> s, f |-> f \o F.ext, fid |-> F.id, fmt |-> F.rf]
=============================================================================
