-------------------------------- MODULE GenCut --------------------------------
(* Files cut short at lines, between words, or at any byte.                  *)
EXTENDS GenLib
CONSTANTS Seed, NRand, NCut, Out, Shard, NShards

Text(F) == F.id \in {"off", "avsucd", "dolfin", "tecplot", "tetgen", "ugrid-asc", "ply-asc", "mdpa", "medit-asc", "netgen", "su2", "wkt", "gmsh22-asc",
                     "gmsh40-asc", "gmsh41-asc", "vtk-asc", "vtk42-asc", "vtk51-asc", "vtu-asc", "xdmf-xml", "ansys-asc"}
Sides(F) == CASE F.fmt = "tetgen" -> <<".node", ".ele">> [] F.id \in {"xdmf", "xdmf-h5raw"} -> <<".xdmf", ".h5">>
              [] F.id = "xdmf-bin" -> <<".xdmf", "0.bin", "1.bin", "2.bin">> [] OTHER -> <<F.ext>>
\* where: unit number (num/of of all units), or back units from the end
CutAt(F, j, key) ==
   LET d == "c" \o ToString(j) \o "/"
       mode == IF ~Text(F) THEN "byte" ELSE Pick(<<"line", "line", "word">>, R(key, 1))
       tail == Chance(R(key, 2), 35)
   IN <<[op |-> "cut", f |-> "x" \o F.ext, g |-> d \o "x" \o F.ext, dir |-> d, which |-> "x" \o Pick(Sides(F), R(key, 3)), mode |-> mode,
         num |-> R(key, 4) % 1000, of |-> 1000, back |-> IF tail THEN 1 + (R(key, 5) % 12) ELSE 0],
        Read(d \o "x", "r" \o ToString(j), F)>>
Sc(F, fi, k) ==
   LET key == Mix(Mix(Seed, 4100 + k), 900 + fi) IN
   [id |-> "cut/" \o F.id \o "/" \o ToString(k), fam |-> "cut",
    ops |-> <<New("a", RandMesh(F, key)), Write("a", "x", F), Read("x", "p", F)>>
            \o FlattenSeq([j \in 1..NCut |-> CutAt(F, j, R(key, 100 + j))])]
Mine == SelectSeq([i \in DOMAIN Variants |-> i], LAMBDA i : i % NShards = Shard)
Of(i) == [k \in 1..NRand |-> Sc(Variants[i], i, k)]
Cases == FlattenSeq([j \in DOMAIN Mine |-> Of(Mine[j])])
ASSUME ndJsonSerialize(Out, Cases)
ASSUME PrintT(<<"GENERATED", Len(Cases)>>)
=============================================================================
