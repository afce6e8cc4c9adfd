-------------------------------- MODULE GenVar --------------------------------
(* One mesh stored in all variants of a format, and through all entry points: *)
(* what is read back must be the same mesh each time.                         *)
EXTENDS GenLib
CONSTANTS Seed, NRand, Out, Shard, NShards

WHows(F) == <<"str", "path", "rel">> \o (IF F.via = "" THEN <<"method", "module">> ELSE <<>>)
            \o (IF F.via = "" /\ F.fmt \notin {"gmsh", "gmsh22"} THEN <<"wpc">> ELSE <<>>)
            \o (IF Implied(F) THEN <<"ext">> ELSE <<>>)
            \o (IF Implied(F) /\ F.fmt \notin {"xdmf", "tetgen", "dolfin-xml"} THEN <<"upper">> ELSE <<>>)
            \o (IF Stream(F).w # "" THEN <<"open">> ELSE <<>>)
            \o (IF Stream(F).mem THEN <<"buffer">> ELSE <<>>)
RHows(F) == <<"str", "path", "rel", "module", "classmethod">>
            \o (IF Implied(F) \/ F.fmt \in {"vtk42", "vtk51"} THEN <<"ext">> ELSE <<>>)
            \o (IF Implied(F) /\ F.fmt \notin {"xdmf", "tetgen", "dolfin-xml"} THEN <<"upper">> ELSE <<>>)
            \o (IF Stream(F).r # "" THEN <<"open">> ELSE <<>>)
            \o (IF Stream(F).mem THEN <<"buffer">> ELSE <<>>)

\* the module's own write function has its own defaults for the version
HowW(F, h) == IF h = "module" /\ F.fmt \in {"gmsh22", "vtk42", "vtk51"} THEN "str" ELSE h
W(s, f, F, h) == Write(s, f, F) @@ [how |-> HowW(F, h), ext |-> F.ext, buf |-> Stream(F).w]
Rd(f, s, F, h) == Read(f, s, F) @@ [how |-> h, ext |-> F.ext, buf |-> Stream(F).r, grp |-> "g"]

\* a mesh every variant of the group promises to keep
GroupMesh(G, key) ==
   LET try(k) == RandMesh(Fid(G[1 + (R(key, 800 + k) % Len(G))]), R(key, 820 + k))
       \* what only some versions of a format carry
       nogm(m) == [m EXCEPT !.pd = SelectSeq(m.pd, LAMBDA d : d.n # "gmsh:dim_tags"),
                            !.cd = SelectSeq(m.cd, LAMBDA d : d.n \notin {"gmsh:physical", "gmsh:geometrical"}),
                            !.ps = IF G[1] = "vtk-bin" THEN <<>> ELSE m.ps, !.cs = IF G[1] = "vtk-bin" THEN <<>> ELSE m.cs]
       ok(m) == \A i \in DOMAIN G : Promised(Fid(G[i]), m)
       c == SelectSeq([k \in 1..6 |-> IF Len(G) > 2 THEN nogm(try(k)) ELSE try(k)], ok)
   IN c

GroupCase(g, k) ==
   LET G == Groups[g]
       key == Mix(Mix(Seed, 1200 + k), 300 + g)
       c == GroupMesh(G, key)
       \* a rotated order, so that no variant is always the reference
       H == [i \in DOMAIN G |-> Fid(G[((i + R(key, 5)) % Len(G)) + 1])]
   IN IF c = <<>> THEN <<>> ELSE
      <<[id |-> "variants/" \o G[1] \o "/" \o ToString(k), fam |-> "variants",
         ops |-> <<New("a", c[1])>> \o FlattenSeq([i \in DOMAIN H |->
                    <<W("a", "x" \o ToString(i), H[i], "str"), Rd("x" \o ToString(i), "b" \o ToString(i), H[i], "str")>>])]>>

\* one variant, every entry point
HowCase(F, fi, k) ==
   LET key == Mix(Mix(Seed, 1700 + k), 5000 + fi)
       ws == WHows(F) rs == RHows(F)
       n == Max2(Len(ws), Len(rs))
   IN [id |-> "entry/" \o F.id \o "/" \o ToString(k), fam |-> "variants",
       ops |-> <<New("a", NoFams(RandMesh(F, key)))>> \o FlattenSeq([i \in 1..n |->
            <<W("a", "x" \o ToString(i), F, ws[((i + R(key, 3)) % Len(ws)) + 1]),
              Rd("x" \o ToString(i), "b" \o ToString(i), F, rs[((i + R(key, 4)) % Len(rs)) + 1])>>])]

\* every registered extension
ExtCase(F, fi, k, x) ==
   LET key == Mix(Mix(Seed, 2300 + k), 5000 + fi)
       A == [F EXCEPT !.ext = x]
   IN [id |-> "ext/" \o F.id \o x \o "/" \o ToString(k), fam |-> "variants",
       ops |-> <<New("a", RandMesh(F, key)), W("a", "x", F, "str"), Rd("x", "b", F, "str"),
                 W("a", "y", A, "ext"), Rd("y", "c", A, "ext"), W("a", "z", A, "str"), Rd("z", "d", A, "path")>>]

Mine(n) == SelectSeq([i \in 1..n |-> i], LAMBDA i : i % NShards = Shard)
Cases == FlattenSeq([j \in DOMAIN Mine(Len(Groups)) |->
             FlattenSeq([k \in 1..(4 * NRand) |-> GroupCase(Mine(Len(Groups))[j], k)])])
      \o FlattenSeq([j \in DOMAIN Mine(Len(Variants)) |->
             [k \in 1..NRand |-> HowCase(Variants[Mine(Len(Variants))[j]], Mine(Len(Variants))[j], k)]])
      \o FlattenSeq([j \in DOMAIN Mine(Len(Variants)) |-> LET i == Mine(Len(Variants))[j] F == Variants[i] IN
             FlattenSeq([q \in DOMAIN AltExts(F) |-> [k \in 1..NRand |-> ExtCase(F, i, k, AltExts(F)[q])]])])
ASSUME ndJsonSerialize(Out, Cases)
ASSUME PrintT(<<"GENERATED", Len(Cases)>>)
=============================================================================
