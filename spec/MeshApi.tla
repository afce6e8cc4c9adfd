-------------------------------- MODULE MeshApi --------------------------------
(***************************************************************************)
(* The mesh object itself: what may be built, what its views show, copies, *)
(* and the conversions between sets and integer data.                      *)
(***************************************************************************)
EXTENDS Meshes

\* ---- construction -------------------------------------------------------
RowsOK(m) ==
   /\ \A i \in DOMAIN m.pd : Len(m.pd[i].r) = Len(m.pts)
   /\ \A i \in DOMAIN m.cd :
        /\ Len(m.cd[i].r) = Len(m.blocks)
        /\ \A k \in DOMAIN m.blocks : Len(m.cd[i].r[k]) = Len(m.blocks[k].c)

Cells(m) == [k \in DOMAIN m.blocks |-> [t |-> m.blocks[k].t, c |-> m.blocks[k].c]]
\* (rows of several integers are not always told apart: those arrays are compared by name)
Arrays(s) == LET q == SelectSeq(s, LAMBDA d : d.nc <= 1 \/ IsFloatDt(d.dt))
             IN <<[i \in DOMAIN s |-> s[i].n], [i \in DOMAIN q |-> [n |-> q[i].n, r |-> q[i].r]]>>
\* the same mesh, number types aside
SameValues(a, b) ==
   /\ a.dim = b.dim /\ a.pts = b.pts /\ Cells(a) = Cells(b)
   /\ Arrays(a.pd) = Arrays(b.pd) /\ Arrays(a.cd) = Arrays(b.cd)
   /\ a.fd = b.fd /\ a.ps = b.ps /\ a.cs = b.cs /\ a.gp = b.gp
\* the same mesh, number types included (both observed)
SameMesh(a, b) == \A k \in DOMAIN b : k = "lay" \/ b[k] = a[k]

\* ---- views --------------------------------------------------------------
TypeOrder(m) ==                     \* the types, by first appearance
   LET ts == [k \in DOMAIN m.blocks |-> m.blocks[k].t]
       first == SelectSeq([k \in DOMAIN ts |-> k], LAMBDA k : \A j \in 1..(k-1) : ts[j] # ts[k])
   IN [i \in DOMAIN first |-> ts[first[i]]]
OfType(m, t) == SelectSeq([k \in DOMAIN m.blocks |-> k], LAMBDA k : m.blocks[k].t = t)
CellsOf(m, t) == LET ks == OfType(m, t) IN FlattenSeq([j \in DOMAIN ks |-> m.blocks[ks[j]].c])
RowsOf(m, d, t) == LET ks == OfType(m, t) IN FlattenSeq([j \in DOMAIN ks |-> d.r[ks[j]]])
\* members of a set among the cells of one type, numbered through all blocks of that type
MembersOf(m, s, t) ==
   LET ks == OfType(m, t)
       off(j) == SumSeq([i \in 1..(j-1) |-> Len(m.blocks[ks[i]].c)])
   IN FlattenSeq([j \in DOMAIN ks |->
        LET x == s.m[ks[j]] IN IF x = <<-1>> THEN <<>> ELSE [i \in DOMAIN x |-> x[i] + off(j)]])

ViewCells(m) == [i \in DOMAIN TypeOrder(m) |-> [t |-> TypeOrder(m)[i], c |-> CellsOf(m, TypeOrder(m)[i])]]
ViewData(m) ==
   [q \in DOMAIN m.cd |-> [n |-> m.cd[q].n,
      per |-> [i \in DOMAIN TypeOrder(m) |-> [t |-> TypeOrder(m)[i], r |-> RowsOf(m, m.cd[q], TypeOrder(m)[i])]]]]
ViewSets(m) ==
   [q \in DOMAIN m.cs |->
     LET ts == SelectSeq(TypeOrder(m), LAMBDA t : MembersOf(m, m.cs[q], t) # <<>>)
     IN [n |-> m.cs[q].n, per |-> {[t |-> ts[i], m |-> MembersOf(m, m.cs[q], ts[i])] : i \in DOMAIN ts}]]

IfNot(b, c) == IF b THEN {} ELSE {c}
ViewsVerdict(m, r) ==
   IfNot(r.cells.st = "ok" /\ r.cells.v = ViewCells(m), "view.cells")
   \cup IfNot(r.data.st = "ok" /\ r.data.v = ViewData(m), "view.celldata")
   \cup IfNot(r.sets.st = "ok" /\ [q \in DOMAIN r.sets.v |-> [n |-> r.sets.v[q].n, per |-> RangeOf(r.sets.v[q].per)]] = ViewSets(m), "view.cellsets")
   \cup IfNot(\A i \in DOMAIN r.types : LET g == r.types[i] IN
          g.st = "ok" /\ g.c = CellsOf(m, g.t) /\ g.cols = NN(g.t), "view.type")
   \cup IfNot(\A i \in DOMAIN r.dtypes : LET g == r.dtypes[i] IN
          g.st = "ok" /\ g.r = RowsOf(m, Get(m.cd, g.n), g.t), "view.datatype")
   \cup IfNot(r.blocks = [k \in DOMAIN m.blocks |-> [t |-> m.blocks[k].t, n |-> Len(m.blocks[k].c), dim |-> TopDim(m.blocks[k].t)]], "view.blocks")
   \cup IfNot(r.repr = "ok", "view.repr")

\* ---- sets to data -------------------------------------------------------
\* the numbers a point / cell may get (several when the sets overlap)
NumbersOf(sets, x, k) ==       \* k = 0: point sets, else cell sets of block k
   LET inn(i) == IF k = 0 THEN x \in RangeOf(sets[i].m)
                 ELSE sets[i].m[k] # <<-1>> /\ x \in RangeOf(sets[i].m[k])
       hit == {i \in DOMAIN sets : inn(i)}
   IN IF hit = {} THEN {-1} ELSE {i - 1 : i \in hit}
JoinSets(sets, j) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o j \o b, "", [i \in DOMAIN sets |-> sets[i].n])
Without(s, n) == SelectSeq(s, LAMBDA d : d.n # n)
Rest(m, fields) == [k \in (DOMAIN m) \ (fields \cup {"lay"}) |-> m[k]]

PointSetsToData(m, name, join, r) ==      \* verdict on the observed outcome r
   IF m.ps = <<>> THEN IfNot(r.st = "ok" /\ SameMesh(m, r.m), "conv.noop")
   ELSE IF r.st # "ok" THEN {"conv.failed"}
   ELSE LET nm == IF name = "" THEN JoinSets(m.ps, join) ELSE name
        IN IfNot(Has(r.m.pd, nm), "conv.name")
           \cup IfNot(~Has(r.m.pd, nm) \/
                LET d == Get(r.m.pd, nm) IN IsIntDt(d.dt) /\ Len(d.r) = Len(m.pts)
                    /\ \A x \in DOMAIN d.r : d.r[x] \in NumbersOf(m.ps, x - 1, 0), "conv.numbers")
           \cup IfNot(r.m.ps = <<>>, "conv.leftover")
           \cup IfNot(Rest(m, {"pd", "ps"}) = Rest(r.m, {"pd", "ps"}) /\ Without(r.m.pd, nm) = Without(m.pd, nm), "conv.others")
CellSetsToData(m, name, r) ==
   IF m.cs = <<>> THEN IfNot(r.st = "ok" /\ SameMesh(m, r.m), "conv.noop")
   ELSE IF r.st # "ok" THEN {"conv.failed"}
   ELSE LET nm == IF name = "" THEN JoinSets(m.cs, "-") ELSE name
        IN IfNot(Has(r.m.cd, nm), "conv.name")
           \cup IfNot(~Has(r.m.cd, nm) \/
                LET d == Get(r.m.cd, nm) IN IsIntDt(d.dt) /\ Len(d.r) = Len(m.blocks)
                    /\ \A k \in DOMAIN d.r : Len(d.r[k]) = Len(m.blocks[k].c)
                         /\ \A x \in DOMAIN d.r[k] : d.r[k][x] \in NumbersOf(m.cs, x - 1, k), "conv.numbers")
           \cup IfNot(r.m.cs = <<>>, "conv.leftover")
           \cup IfNot(Rest(m, {"cd", "cs"}) = Rest(r.m, {"cd", "cs"}) /\ Without(r.m.cd, nm) = Without(m.cd, nm), "conv.others")

\* ---- data to sets -------------------------------------------------------
Dedup(s) == LET i == SelectSeq([k \in DOMAIN s |-> k], LAMBDA k : \A j \in 1..(k-1) : s[j] # s[k]) IN [k \in DOMAIN i |-> s[i[k]]]
SetNamesFor(key, parts, tags) ==
   IF Len(Dedup(parts)) = Len(tags) /\ -1 \notin RangeOf(tags) THEN Dedup(parts)
   ELSE [i \in DOMAIN tags |-> "set-" \o key \o "-" \o ToString(tags[i])]
Sorted(S) == SetToSortSeq(S, <)
At(r, v) == SelectSeq([i \in DOMAIN r |-> i - 1], LAMBDA i : r[i + 1] = v)

PointDataToSets(m, key, parts, r) ==
   IF ~Has(m.pd, key) \/ ~IsIntDt(Get(m.pd, key).dt)
   THEN IfNot(r.st = "err", "conv.accepted") \cup IfNot(SameMesh(m, r.m), "conv.spoilt")
   ELSE IF r.st # "ok" THEN {"conv.failed"}
   ELSE LET d == Get(m.pd, key)
            tags == Sorted(RangeOf(d.r))
            nm == SetNamesFor(key, parts, tags)
        IN IfNot(RangeOf(nm) \subseteq Names(r.m.ps), "conv.name")
           \cup IfNot(\A i \in DOMAIN tags : ~Has(r.m.ps, nm[i]) \/ Get(r.m.ps, nm[i]).m = At(d.r, tags[i]), "conv.members")
           \cup IfNot(~Has(r.m.pd, key), "conv.leftover")
           \cup IfNot(Rest(m, {"pd", "ps"}) = Rest(r.m, {"pd", "ps"}) /\ Without(r.m.pd, key) = Without(m.pd, key)
                   /\ SelectSeq(r.m.ps, LAMBDA s : s.n \notin RangeOf(nm)) = SelectSeq(m.ps, LAMBDA s : s.n \notin RangeOf(nm)), "conv.others")
CellDataToSets(m, key, parts, r) ==
   IF ~Has(m.cd, key) \/ ~IsIntDt(Get(m.cd, key).dt)
   THEN IfNot(r.st = "err", "conv.accepted") \cup IfNot(SameMesh(m, r.m), "conv.spoilt")
   ELSE IF r.st # "ok" THEN {"conv.failed"}
   ELSE LET d == Get(m.cd, key)
            tags == Sorted(RangeOf(FlatRows(d)))
            nm == SetNamesFor(key, parts, tags)
        IN IfNot(RangeOf(nm) \subseteq Names(r.m.cs), "conv.name")
           \cup IfNot(\A i \in DOMAIN tags : ~Has(r.m.cs, nm[i]) \/
                        Get(r.m.cs, nm[i]).m = [k \in DOMAIN d.r |-> At(d.r[k], tags[i])], "conv.members")
           \cup IfNot(~Has(r.m.cd, key), "conv.leftover")
           \cup IfNot(Rest(m, {"cd", "cs"}) = Rest(r.m, {"cd", "cs"}) /\ Without(r.m.cd, key) = Without(m.cd, key)
                   /\ SelectSeq(r.m.cs, LAMBDA s : s.n \notin RangeOf(nm)) = SelectSeq(m.cs, LAMBDA s : s.n \notin RangeOf(nm)), "conv.others")

\* ---- what the conversions do, as functions (for the properties of the design) ----
NumberPoints(m) == [x \in DOMAIN m.pts |-> CHOOSE v \in NumbersOf(m.ps, x - 1, 0) : TRUE]
NumberCells(m) == [k \in DOMAIN m.blocks |-> [x \in DOMAIN m.blocks[k].c |-> CHOOSE v \in NumbersOf(m.cs, x - 1, k) : TRUE]]
BackPoints(m) ==
   LET r == NumberPoints(m) tags == Sorted(RangeOf(r)) nm == SetNamesFor("", [i \in DOMAIN m.ps |-> m.ps[i].n], tags)
   IN [i \in DOMAIN tags |-> [n |-> nm[i], m |-> At(r, tags[i])]]
BackCells(m) ==
   LET r == NumberCells(m) tags == Sorted(RangeOf(FlattenSeq(r))) nm == SetNamesFor("", [i \in DOMAIN m.cs |-> m.cs[i].n], tags)
   IN [i \in DOMAIN tags |-> [n |-> nm[i], m |-> [k \in DOMAIN r |-> At(r[k], tags[i])]]]
Partition(sets, all) == \* sets of elements, as a sequence of sets
   /\ \A i \in DOMAIN sets : sets[i] # {}
   /\ UNION RangeOf(sets) = all
   /\ \A i, j \in DOMAIN sets : i = j \/ sets[i] \cap sets[j] = {}
=============================================================================
