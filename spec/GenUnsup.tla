------------------------------- MODULE GenUnsup -------------------------------
(* Cells a format cannot hold: every (variant, type) pair, alone and between  *)
(* cells it can hold, with data and labels on all of them.                    *)
EXTENDS GenLib
CONSTANTS Seed, NRand, Out, Shard, NShards

Ops(F, m) == <<New("a", m), Write("a", "x", F), IF Readable(F) THEN Read("x", "b", F) ELSE Decode("x", F)>>
Strange(F, dim) == SelectSeq([i \in DOMAIN TypeTable |-> TypeTable[i][1]],
   LAMBDA t : t \notin TypesSet(F) /\ t \notin F.open /\ NN(t) <= 64 /\ (dim = 3 \/ TopDim(t) <= 2))

Alone(F) ==
   LET d == IF Readable(F) THEN 3 ELSE 2
       S == Strange(F, d) IN
   [i \in DOMAIN S |->
      [id |-> "unsup/" \o F.id \o "/alone-" \o S[i], fam |-> "unsup",
       ops |-> Ops(F, MeshOf(F, d, <<S[i]>>, LAMBDA k : 2, Mix(Mix(Seed, 31), 100 * i + Len(F.id))))]]

\* one strange block among supported ones, at a varying place
Mixed(F, fi) ==
   [k \in 1..NRand |->
      LET key == Mix(Mix(Seed, 700 + k), 2000 + fi)
          d == Dim(F, key)
          S == Strange(F, d)
          good == BlockTypes(F, d, key)
          at == R(key, 301) % (Len(good) + 1)
          t == IF S = <<>> THEN good[1] ELSE Pick(S, R(key, 302))
          ts == SubSeq(good, 1, at) \o <<t>> \o SubSeq(good, at + 1, Len(good))
      IN [id |-> "unsup/" \o F.id \o "/mix-" \o ToString(k), fam |-> "unsup",
          ops |-> Ops(F, MeshOf(F, d, ts, LAMBDA i : NCells(R(key, 40 + i)), key))]]

Mine == SelectSeq([i \in DOMAIN AllVariants |-> i], LAMBDA i : i % NShards = Shard)
Cases == FlattenSeq([j \in DOMAIN Mine |-> Alone(AllVariants[Mine[j]]) \o Mixed(AllVariants[Mine[j]], Mine[j])])

ASSUME ndJsonSerialize(Out, Cases)
ASSUME PrintT(<<"GENERATED", Len(Cases)>>)
=============================================================================
