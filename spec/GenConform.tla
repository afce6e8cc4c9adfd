------------------------------ MODULE GenConform ------------------------------
(* Files written by the library and decoded without it. *)
EXTENDS GenLib
CONSTANTS Seed, NRand, Out, Shard, NShards
Ops(F, m) == <<New("a", m), Write("a", "x", F), Decode("x", F)>>
TypeCases(F) ==
   [i \in DOMAIN F.types |->
      LET t == F.types[i]
          d == IF F.d2 = "only" \/ (F.shape = "su2" /\ t = "line") THEN 2 ELSE 3
      IN [id |-> "dtype/" \o F.id \o "/" \o t, fam |-> "decode", ops |-> Ops(F, MeshOf(F, d, <<t>>, LAMBDA k : 2, Mix(Mix(Seed, 6), 100 * i + Len(F.id))))]]
RandCases(F, fi) ==
   [k \in 1..NRand |->
      [id |-> "decode/" \o F.id \o "/" \o ToString(k), fam |-> "decode", ops |-> Ops(F, RandMesh(F, Mix(Mix(Seed, k), 5000 + fi)))]]
Mine == SelectSeq([i \in DOMAIN AllVariants |-> i], LAMBDA i : i % NShards = Shard)
Cases == FlattenSeq([j \in DOMAIN Mine |-> TypeCases(AllVariants[Mine[j]]) \o RandCases(AllVariants[Mine[j]], Mine[j])])
ASSUME ndJsonSerialize(Out, Cases)
ASSUME PrintT(<<"GENERATED", Len(Cases)>>)
=============================================================================
