------------------------------- MODULE Meshes -------------------------------
(***************************************************************************)
(* The data the library moves around: abstract meshes.                     *)
(*                                                                         *)
(* A mesh is a record                                                      *)
(*   dim    spatial dimension (2 or 3)                                     *)
(*   pts    sequence of point tokens (a token stands for a coordinate row) *)
(*   pdt    number type of the coordinates ("f8", "f4", ...)               *)
(*   blocks sequence of [t, dt, c]: cell type, index type, sequence of     *)
(*          cells, each a sequence of 0-based node indices                 *)
(*   pd     sequence of [n, nc, dt, r]: point data; r = one token per point*)
(*   cd     sequence of [n, nc, dt, r]: cell data; r = per block a         *)
(*          sequence of tokens                                             *)
(*   fd     sequence of [n, v]      field data (name, integers)            *)
(*   ps     sequence of [n, m]      point sets (0-based indices)           *)
(*   cs     sequence of [n, m]      cell sets, per block 0-based indices,  *)
(*          <<-1>> standing for "no entry for this block"                  *)
(*   gp     sequence of [dim, s, m, aff, pairs] periodic links             *)
(* Meshes observed on the real library also carry pdig / dig: the number   *)
(* of decimal digits on which the observed numbers agree with the token's  *)
(* numbers (17 = all of them).                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

\* nodes per cell type, in the order in which the table is usually given
TypeTable == <<
  <<"vertex",1,0>>, <<"line",2,1>>, <<"triangle",3,2>>, <<"quad",4,2>>, <<"quad8",8,2>>,
  <<"tetra",4,3>>, <<"hexahedron",8,3>>, <<"hexahedron20",20,3>>, <<"hexahedron24",24,3>>,
  <<"wedge",6,3>>, <<"pyramid",5,3>>, <<"line3",3,1>>, <<"triangle6",6,2>>, <<"quad9",9,2>>,
  <<"tetra10",10,3>>, <<"hexahedron27",27,3>>, <<"wedge15",15,3>>, <<"wedge18",18,3>>,
  <<"pyramid13",13,3>>, <<"pyramid14",14,3>>, <<"line4",4,1>>, <<"triangle10",10,2>>,
  <<"quad16",16,2>>, <<"tetra20",20,3>>, <<"wedge40",40,3>>, <<"hexahedron64",64,3>>,
  <<"line5",5,1>>, <<"triangle15",15,2>>, <<"quad25",25,2>>, <<"tetra35",35,3>>,
  <<"wedge75",75,3>>, <<"hexahedron125",125,3>>, <<"line6",6,1>>, <<"triangle21",21,2>>,
  <<"quad36",36,2>>, <<"tetra56",56,3>>, <<"wedge126",126,3>>, <<"hexahedron216",216,3>>,
  <<"line7",7,1>>, <<"triangle28",28,2>>, <<"quad49",49,2>>, <<"tetra84",84,3>>,
  <<"wedge196",196,3>>, <<"hexahedron343",343,3>>, <<"line8",8,1>>, <<"triangle36",36,2>>,
  <<"quad64",64,2>>, <<"tetra120",120,3>>, <<"wedge288",288,3>>, <<"hexahedron512",512,3>>,
  <<"line9",9,1>>, <<"triangle45",45,2>>, <<"quad81",81,2>>, <<"tetra165",165,3>>,
  <<"wedge405",405,3>>, <<"hexahedron729",729,3>>, <<"line10",10,1>>, <<"triangle55",55,2>>,
  <<"quad100",100,2>>, <<"tetra220",220,3>>, <<"wedge550",550,3>>, <<"hexahedron1000",1000,3>>,
  <<"hexahedron1331",1331,3>>, <<"line11",11,1>>, <<"triangle66",66,2>>, <<"quad121",121,2>>,
  <<"tetra286",286,3>> >>

AllTypes == {TypeTable[i][1] : i \in DOMAIN TypeTable}
NNof  == [t \in AllTypes |-> (CHOOSE i \in DOMAIN TypeTable : TypeTable[i][1] = t)]
NN(t) == TypeTable[NNof[t]][2]
TopDim(t) == TypeTable[NNof[t]][3]

\* cells given by their faces: each a sequence of faces, each face a sequence of nodes
HedraTypes == {"polyhedron" \o ToString(n) : n \in 1..40} \cup {"polyhedron"}

RangeOf(s) == {s[i] : i \in DOMAIN s}
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
NC(n) == IF n = 0 THEN 1 ELSE n          \* an (n,) and an (n,1) array both have one component
IsIntDt(d) == d \in {"i1","i2","i4","i8","u1","u2","u4","u8","imix"}
IsFloatDt(d) == d \in {"f2","f4","f8"}

---------------------------------------------------------------------------
(* Flattening: a mesh as one sequence of cells in block order.             *)
BlockCells(b) == [i \in DOMAIN b.c |-> [t |-> b.t, c |-> b.c[i]]]
FlatCells(m) == FlattenSeq([k \in DOMAIN m.blocks |-> BlockCells(m.blocks[k])])
NumCells(m) == SumSeq([k \in DOMAIN m.blocks |-> Len(m.blocks[k].c)])
TypesOf(m) == {m.blocks[k].t : k \in DOMAIN m.blocks}

\* start (0-based) of block k in the flattened numbering
Offset(m, k) == SumSeq([j \in 1..(k-1) |-> Len(m.blocks[j].c)])

\* the flattened rows of one cell-data array
FlatRows(d) == FlattenSeq(d.r)

\* flattened 0-based members of a cell set
FlatSet(m, s) == UNION {
   IF s.m[k] = <<-1>> THEN {} ELSE {Offset(m, k) + x : x \in RangeOf(s.m[k])}
     : k \in DOMAIN s.m}

\* order-insensitive across types: sequence of <<rank of the type, cell>> stable by type
ByType(cells, key) ==
   \* cells: sequence of records with field t; key: sequence aligned with cells.
   \* Returns, for every type present, the subsequence of keys of that type.
   [t \in {cells[i].t : i \in DOMAIN cells} |->
       LET idx == SelectSeq([i \in DOMAIN cells |-> i], LAMBDA i : cells[i].t = t)
       IN [j \in DOMAIN idx |-> key[idx[j]]]]

Lookup(s, n) == {i \in DOMAIN s : s[i].n = n}
Has(s, n) == Lookup(s, n) # {}
Get(s, n) == s[CHOOSE i \in Lookup(s, n) : TRUE]
Names(s) == {s[i].n : i \in DOMAIN s}

---------------------------------------------------------------------------
(* Restriction of a mesh to the blocks selected by Keep(type).             *)
RestrictBlocks(m, ks) ==
   LET sel == SelectSeq([k \in DOMAIN m.blocks |-> k], LAMBDA k : k \in ks)
   IN [m EXCEPT
        !.blocks = [j \in DOMAIN sel |-> m.blocks[sel[j]]],
        !.cd = [i \in DOMAIN m.cd |-> [m.cd[i] EXCEPT !.r = [j \in DOMAIN sel |-> m.cd[i].r[sel[j]]]]],
        !.cs = [i \in DOMAIN m.cs |-> [m.cs[i] EXCEPT !.m = [j \in DOMAIN sel |-> m.cs[i].m[sel[j]]]]]]

---------------------------------------------------------------------------
(* Consistency of a mesh (what the Mesh constructor promises)              *)
Consistent(m) ==
   /\ \A i \in DOMAIN m.pd : Len(m.pd[i].r) = Len(m.pts)
   /\ \A i \in DOMAIN m.cd :
        /\ Len(m.cd[i].r) = Len(m.blocks)
        /\ \A k \in DOMAIN m.blocks : Len(m.cd[i].r[k]) = Len(m.blocks[k].c)
   /\ \A i \in DOMAIN m.cs : Len(m.cs[i].m) = Len(m.blocks)
   /\ \A k \in DOMAIN m.blocks : \A j \in DOMAIN m.blocks[k].c :
        IF m.blocks[k].t \in HedraTypes
        THEN \A f \in RangeOf(m.blocks[k].c[j]) : \A x \in RangeOf(f) : x >= 0 /\ x < Len(m.pts)      \* faces
        ELSE \A x \in RangeOf(m.blocks[k].c[j]) : x >= 0 /\ x < Len(m.pts)
=============================================================================
