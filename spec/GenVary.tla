-------------------------------- MODULE GenVary -------------------------------
(* Files rewritten in every way their format allows, one way at a time and   *)
(* several together.                                                         *)
EXTENDS GenLib
CONSTANTS Seed, NRand, Out, Shard, NShards
Say == INSTANCE Vary

Sides(F) == CASE F.fmt = "tetgen" -> <<"x.node", "x.ele">> [] OTHER -> <<"x" \o F.ext>>
Vary(F, j, names, key) ==
   LET d == "v" \o ToString(j) \o "/"
   IN <<[op |-> "vary", f |-> "x" \o F.ext, g |-> d \o "x" \o F.ext, dir |-> d, which |-> Sides(F), kind |-> Say!Kind(F), names |-> names, seed |-> key],
        Read(d \o "x", "r" \o ToString(j), F)>>
Sub(s, key) == SelectSeq(s, LAMBDA n : \E i \in DOMAIN s : s[i] = n /\ Chance(R(key, 60 + i), 35))
Ways(F, key) ==
   LET k == Say!Kind(F) S == Say!Structural(k) L == Say!Lexical(k)
       one == [i \in 1..(Len(S) + Len(L)) |-> <<IF i <= Len(S) THEN S[i] ELSE L[i - Len(S)]>>]
       many == [i \in 1..4 |-> <<Pick(S, R(key, 40 + i))>> \o Sub(L, R(key, 50 + i))]
   IN one \o many
Sc(F, fi, k) ==
   LET key == Mix(Mix(Seed, 7700 + k), 300 + fi)
       w == Ways(F, key) IN
   [id |-> "vary/" \o F.id \o "/" \o ToString(k), fam |-> "vary",
    ops |-> <<New("a", RandMesh(F, key)), Write("a", "x", F), Read("x", "p", F)>>
            \o FlattenSeq([j \in DOMAIN w |-> Vary(F, j, w[j], R(key, 100 + j))])]
Texts == SelectSeq([i \in DOMAIN Variants |-> i], LAMBDA i : Say!Kind(Variants[i]) # "")
Mine == SelectSeq(Texts, LAMBDA i : i % NShards = Shard)
Of(i) == [k \in 1..NRand |-> Sc(Variants[i], i, k)]
Cases == FlattenSeq([j \in DOMAIN Mine |-> Of(Mine[j])])
ASSUME ndJsonSerialize(Out, Cases)
ASSUME PrintT(<<"GENERATED", Len(Cases)>>)
=============================================================================
