-------------------------------- MODULE GenHist --------------------------------
(* Histories: chains of conversions, overwriting, repeated reads, failing     *)
(* calls in between.  Everything is judged by the state of System: what is    *)
(* read from a file depends on the last write to it and on nothing else.      *)
EXTENDS GenLib
CONSTANTS Seed, NRand, Out, Shard, NShards

\* (eight characters per number keep only some profiles of numbers)
Roomy == SelectSeq(Variants, LAMBDA F : F.id # "nastran-small")
VarOf(r) == Roomy[(r % Len(Roomy)) + 1]
Keeps(m) == SelectSeq(Roomy, LAMBDA F : Promised(F, m))
\* a variant for mesh m: mostly one that keeps it
Next(m, r) == LET K == Keeps(m) IN IF K = <<>> \/ Chance(r, 15) THEN VarOf(r \div 7) ELSE Pick(K, r \div 3)

\* ---- a chain of conversions
RECURSIVE Links(_, _, _, _)
Links(m, key, j, n) ==
   IF j > n THEN <<>>
   ELSE LET F == Next(m, R(key, 40 + j))
            s == "m" \o ToString(j - 1) f == "x" \o ToString(j)
        IN <<Write(s, f, F), Read(f, "m" \o ToString(j), F)>>
           \o (IF Chance(R(key, 80 + j), 30) THEN <<Read(f, "t", F)>> ELSE <<>>)
           \o (IF Chance(R(key, 90 + j), 30) THEN <<[op |-> "look", s |-> "m0"]>> ELSE <<>>)
           \o Links(m, key, j + 1, n)
Chain(k) ==
   LET key == Mix(Mix(Seed, 61), 10 * k + Shard)
       m == RandMesh(VarOf(R(key, 1)), R(key, 2))
   IN [id |-> "chain/" \o ToString(Shard) \o "/" \o ToString(k), fam |-> "history",
       ops |-> <<New("m0", m)>> \o Links(m, key, 1, 2 + (R(key, 3) % 4)) \o <<[op |-> "look", s |-> "m0"]>>]

\* ---- one file, written several times with different meshes
Over(F, fi, k) ==
   LET key == Mix(Mix(Seed, 71 + k), 100 * fi)
       a == RandMesh(F, R(key, 1)) b == RandMesh(F, R(key, 2)) c == RandMesh(F, R(key, 3))
       bad == MeshOf(F, 3, <<Pick(<<"hexahedron343", "wedge288", "wedge196">>, R(key, 4))>>, LAMBDA i : 1, R(key, 5))
       G == Next(a, R(key, 6))
       w(s) == <<Write(s, "x", F)>>
       r(s) == <<Read("x", s, F)>>
       seqs == << w("a") \o w("b") \o r("p") \o r("q") \o w("c") \o r("p"),
                  w("a") \o r("p") \o w("b") \o r("q") \o w("a") \o r("t"),
                  w("c") \o <<Write("a", "y", F)>> \o r("p") \o <<Read("y", "q", F)>> \o w("b") \o <<Read("y", "t", F)>> \o r("p"),
                  w("a") \o r("p") \o <<Write("p", "x", F)>> \o r("q") \o <<Write("q", "x", F)>> \o r("t"),
                  w("a") \o <<Write("bad", "z", F)>> \o r("p") \o <<Read("z", "q", F)>> \o <<Read("none", "t", F)>> \o r("q"),
                  w("a") \o <<Write("a", "g", G)>> \o r("p") \o <<Read("g", "q", G)>> \o r("t") \o <<Read("g", "u", G)>> >>
   IN [id |-> "over/" \o F.id \o "/" \o ToString(k), fam |-> "history",
       ops |-> <<New("a", a), New("b", b), New("c", c), New("bad", bad)>> \o seqs[(k % Len(seqs)) + 1]
               \o <<[op |-> "look", s |-> "a"], [op |-> "look", s |-> "b"], [op |-> "look", s |-> "p"]>>]

\* ---- interleaved reads and writes of two formats
Mixed(k) ==
   LET key == Mix(Mix(Seed, 91), 10 * k + Shard)
       F == VarOf(R(key, 1)) G == VarOf(R(key, 2)) H == VarOf(R(key, 3))
       a == RandMesh(F, R(key, 4)) b == RandMesh(G, R(key, 5)) c == RandMesh(H, R(key, 6))
   IN [id |-> "mixed/" \o ToString(Shard) \o "/" \o ToString(k), fam |-> "history",
       ops |-> <<New("a", a), New("b", b), New("c", c), Write("a", "x", F), Write("b", "y", G), Read("x", "p", F), Write("c", "z", H),
                 Read("y", "q", G), Read("z", "t", H), Read("x", "u", F), Write("p", "w", F), Read("w", "v", F),
                 Read("y", "q2", G), [op |-> "look", s |-> "p"], [op |-> "look", s |-> "q"], [op |-> "look", s |-> "t"]>>]

Mine == SelectSeq([i \in DOMAIN Variants |-> i], LAMBDA i : i % NShards = Shard)
Cases == [k \in 1..(6 * NRand) |-> Chain(k)] \o [k \in 1..(3 * NRand) |-> Mixed(k)]
   \o FlattenSeq([j \in DOMAIN Mine |-> [k \in 1..NRand |-> Over(Variants[Mine[j]], Mine[j], k)]])
ASSUME ndJsonSerialize(Out, Cases)
ASSUME PrintT(<<"GENERATED", Len(Cases)>>)
=============================================================================
