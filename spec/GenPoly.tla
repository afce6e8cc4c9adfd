-------------------------------- MODULE GenPoly -------------------------------
(* Cells with any number of nodes: polygons, VTK's Lagrange cells, polyhedra. *)
EXTENDS GenLib
CONSTANTS Seed, NRand, Out, Shard, NShards

BlockN(t, nn, dt, nc, np, key) ==
   [t |-> t, dt |-> dt,
    c |-> [i \in 1..nc |->
            LET a == R(key, 2 * i) % np
                s == 1 + (R(key, 2 * i + 1) % (np - 1))
            IN [j \in 1..nn |-> (a + s * (j - 1)) % np]]]
Lagrange == <<<<"VTK_LAGRANGE_CURVE", 4>>, <<"VTK_LAGRANGE_TRIANGLE", 10>>, <<"VTK_LAGRANGE_QUADRILATERAL", 9>>, <<"VTK_LAGRANGE_QUADRILATERAL", 16>>,
  <<"VTK_LAGRANGE_TETRAHEDRON", 20>>, <<"VTK_LAGRANGE_HEXAHEDRON", 27>>, <<"VTK_LAGRANGE_WEDGE", 18>>, <<"VTK_LAGRANGE_PYRAMID", 14>>>>
Kind(F, key, i) ==
   LET r == R(key, 700 + i) % 100
       low == IF "VTK_LAGRANGE_WEDGE" \in OpenTypes(F) THEN 3 ELSE 5
       plain == SelectSeq(F.types, LAMBDA t : NN(t) <= 8)
       t == Pick(plain, R(key, 720 + i))
   IN IF r < 55 THEN <<"polygon", low + (R(key, 710 + i) % (10 - low))>>
      ELSE IF r < 75 /\ "VTK_LAGRANGE_WEDGE" \in OpenTypes(F) THEN Pick(Lagrange, R(key, 730 + i))
      ELSE <<t, NN(t)>>
Mixed(F, key) ==
   LET np == PrimeAbove(27, SizeExtra(R(key, 12)))
       nb == 1 + (R(key, 8) % 5)
       ks == [i \in 1..nb |-> Kind(F, key, i)]
   IN MeshWith(F, 3, np, [i \in 1..nb |-> BlockN(ks[i][1], ks[i][2], CellDt(F, key), NCells(R(key, 40 + i)), np, R(key, 30 + i))], key)

\* polyhedra, given by their faces
Solid == <<
  <<"polyhedron4", <<<<0,1,2>>, <<0,1,3>>, <<1,2,3>>, <<0,2,3>>>>>>,
  <<"polyhedron5", <<<<0,1,2,3>>, <<0,1,4>>, <<1,2,4>>, <<2,3,4>>, <<3,0,4>>>>>>,
  <<"polyhedron6", <<<<0,1,2>>, <<3,4,5>>, <<0,1,4,3>>, <<1,2,5,4>>, <<2,0,3,5>>>>>>,
  <<"polyhedron8", <<<<0,1,2,3>>, <<4,5,6,7>>, <<0,1,5,4>>, <<1,2,6,5>>, <<2,3,7,6>>, <<3,0,4,7>>>>>>,
  <<"polyhedron10", <<<<0,1,2,3,4>>, <<5,6,7,8,9>>, <<0,1,6,5>>, <<1,2,7,6>>, <<2,3,8,7>>, <<3,4,9,8>>, <<4,0,5,9>>>>>> >>
Hedra(F, key) ==
   LET np == PrimeAbove(11, SizeExtra(R(key, 12)))
       nb == 1 + (R(key, 8) % 4)
       B(i) == LET s == Pick(Solid, R(key, 740 + i))
                   cell(q) == LET a == R(key, 50 * i + 2 * q) % np
                                  st == 1 + (R(key, 50 * i + 2 * q + 1) % (np - 1))
                              IN [f \in DOMAIN s[2] |-> [j \in DOMAIN s[2][f] |-> (a + st * s[2][f][j]) % np]]
               IN [t |-> s[1], dt |-> "i8", c |-> [q \in 1..(1 + (R(key, 750 + i) % 4)) |-> cell(q)]]
   IN [MeshWith(F, 3, np, [i \in 1..nb |-> B(i)], key) EXCEPT !.cs = <<>>, !.ps = <<>>]

Ops(F, m) == <<New("a", m), Write("a", "x", F), Read("x", "b", F)>>
Cases1(F, fi) ==
   [k \in 1..NRand |-> [id |-> "poly/" \o F.id \o "/" \o ToString(k), fam |-> "poly", ops |-> Ops(F, Mixed(F, Mix(Mix(Seed, 40 + k), 8000 + fi)))]]
   \o (IF ~Hedral(F) THEN <<>> ELSE
       [k \in 1..NRand |-> [id |-> "hedra/" \o F.id \o "/" \o ToString(k), fam |-> "poly", ops |-> Ops(F, Hedra(F, Mix(Mix(Seed, 90 + k), 9000 + fi)))]])
Open == SelectSeq([i \in DOMAIN Variants |-> i], LAMBDA i : OpenTypes(Variants[i]) # {})
Mine == SelectSeq([j \in DOMAIN Open |-> j], LAMBDA j : j % NShards = Shard)
Cases == FlattenSeq([j \in DOMAIN Mine |-> Cases1(Variants[Open[Mine[j]]], Open[Mine[j]])])
ASSUME ndJsonSerialize(Out, Cases)
ASSUME PrintT(<<"GENERATED", Len(Cases)>>)
=============================================================================
