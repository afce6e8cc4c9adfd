-------------------------------- MODULE GenLay --------------------------------
(* The same values in other memory layouts and number types.                  *)
EXTENDS GenLib
CONSTANTS Seed, NRand, Out, Shard, NShards

Ops(F, m) == <<New("a", m), Write("a", "x", F), IF Readable(F) THEN Read("x", "b", F) ELSE Decode("x", F)>>
Layouts == <<"f", "strided", "rev", "ro", "be", "f", "strided", "c">>
ConnDts == <<"i4", "u4", "u8", "i2", "u2", "u1", "i1", "i8", "i4", "u8">>
PtDts == <<"f8", "f4", "f8", "f4", "f8", "i8", "i4", "f8">>

Recast(F, m, key) ==
   LET cdt == IF Chance(R(key, 501), 55) THEN "i8" ELSE Pick(ConnDts, R(key, 502))
       small == \A b \in DOMAIN m.blocks : \A c \in DOMAIN m.blocks[b].c : \A x \in RangeOf(m.blocks[b].c[c]) : x < 127
       dt == IF small \/ cdt \notin {"i1", "u1"} THEN cdt ELSE "i4"
   IN [m EXCEPT !.lay = Pick(Layouts, R(key, 503)),
                !.pdt = IF Readable(F) THEN Pick(PtDts, R(key, 504)) ELSE "f8", !.prof = IF IsIntDt(Pick(PtDts, R(key, 504))) THEN "plain" ELSE m.prof,
                !.blocks = [b \in DOMAIN m.blocks |-> [m.blocks[b] EXCEPT !.dt = dt]]]

Cases1(F, fi) ==
   [k \in 1..NRand |->
      LET key == Mix(Mix(Seed, 900 + k), 4000 + fi)
      IN [id |-> "layout/" \o F.id \o "/" \o ToString(k), fam |-> "layout", ops |-> Ops(F, Recast(F, RandMesh(F, key), key))]]

Mine == SelectSeq([i \in DOMAIN AllVariants |-> i], LAMBDA i : i % NShards = Shard)
Cases == FlattenSeq([j \in DOMAIN Mine |-> Cases1(AllVariants[Mine[j]], Mine[j])])
ASSUME ndJsonSerialize(Out, Cases)
ASSUME PrintT(<<"GENERATED", Len(Cases)>>)
=============================================================================
