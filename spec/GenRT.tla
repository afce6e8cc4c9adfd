-------------------------------- MODULE GenRT --------------------------------
(* Scenarios of the round-trip family. *)
EXTENDS GenLib
CONSTANTS Seed, NRand, Out, Shard, NShards

RtOps(F, m) == <<New("a", m), Write("a", "x", F), Read("x", "b", F)>>

\* every (variant, supported type), alone
TypeCases(F) ==
   [i \in DOMAIN F.types |->
      LET t == F.types[i]
          key == Mix(Mix(Seed, 5), 100 * i + Len(F.id))
          d == IF F.shape = "su2" /\ t = "line" THEN 2 ELSE 3
      IN [id |-> "type/" \o F.id \o "/" \o t, fam |-> "type", ops |-> RtOps(F, MeshOf(F, d, <<t>>, LAMBDA k : 2, key))]]

RandCases(F, fi) ==
   [k \in 1..NRand |->
      [id |-> "rand/" \o F.id \o "/" \o ToString(k), fam |-> "rand",
       ops |-> RtOps(F, RandMesh(F, Mix(Mix(Seed, k), 1000 + fi)))]]

Mine == SelectSeq([i \in DOMAIN Variants |-> i], LAMBDA i : i % NShards = Shard)
Cases == FlattenSeq([j \in DOMAIN Mine |-> TypeCases(Variants[Mine[j]]) \o RandCases(Variants[Mine[j]], Mine[j])])

ASSUME ndJsonSerialize(Out, Cases)
ASSUME PrintT(<<"GENERATED", Len(Cases)>>)
=============================================================================
