-------------------------------- MODULE GenExt --------------------------------
(* Choosing the format: by name, by extension; what must be refused.         *)
EXTENDS GenLib
CONSTANTS Seed, NRand, Out, Shard, NShards

H(o, h, x) == o @@ [how |-> h, ext |-> x, buf |-> ""]
RWrite(s, f, fmt, why, how) == [op |-> "rwrite", s |-> s, f |-> f, fmt |-> fmt, why |-> why, how |-> how]
RRead(f, fmt, why, how) == [op |-> "rread", f |-> f, fmt |-> fmt, why |-> why, how |-> how]

\* a block with a wrong number of nodes per cell, at some place among right ones
Wrong(F, key) ==
   LET m == NoFams(RandMesh(F, key))
       k == 1 + (R(key, 2) % Len(m.blocks))
       wrong(c) == IF R(key, 3) % 2 = 0 /\ Len(c) > 1 THEN Tail(c) ELSE Append(c, c[1])
   IN [m EXCEPT !.blocks[k].c = [i \in DOMAIN @ |-> wrong(@[i])]]

\* the file name implies the format
ByExt(F, fi, k, x) ==
   LET key == Mix(Mix(Seed, 2500 + k), 900 + fi)
       A == [F EXCEPT !.ext = x]
       m == NoFams(RandMesh(F, key))
   IN [id |-> "byext/" \o F.id \o x \o "/" \o ToString(k), fam |-> "dispatch",
       ops |-> <<New("a", m), H(Write("a", "x", A), IF F.fmt \in {"gmsh", "gmsh22", "vtk42", "vtk51"} THEN "str" ELSE "ext", x), H(Read("x", "b", A), "module", x), H(Read("x", "c", A), "ext", x),
                 H(Write("a", "y", A), "str", x), H(Read("y", "d", A), "ext", x), H(Read("none", "e", A), "ext", x)>>
              \o (IF Implied(F) /\ F.fmt \notin {"xdmf", "tetgen", "dolfin-xml"} THEN <<H(Read("y", "g", A), "upper", x), H(Write("a", "z", A), "upper", x), H(Read("z", "h", A), "module", x)>> ELSE <<>>)]
\* the named format wins over the name of the file
Free == {"xdmf", "medit", "tetgen", "netgen", "permas", "ugrid", "nastran", "flac3d", "dolfin-xml", "hmf"}
Other(F, r) == Pick(SelectSeq(<<".vtu", ".off", ".dat", ".msh", ".zz", "", ".tar.gz", ".STL">>, LAMBDA x : x # F.ext), r)
Override(F, fi, k) ==
   LET key == Mix(Mix(Seed, 2700 + k), 900 + fi)
       A == [F EXCEPT !.ext = Other(F, R(key, 4))]
   IN [id |-> "named/" \o F.id \o "/" \o ToString(k), fam |-> "dispatch",
       ops |-> <<New("a", NoFams(RandMesh(F, key))), Write("a", "x", A), Read("x", "b", A)>>]
\* what must be refused, and must leave everything alone
Refuse(F, fi, k) ==
   LET key == Mix(Mix(Seed, 2900 + k), 900 + fi)
       f == "x" \o F.ext
       hows == <<"str", "path", "method", "wpc">>
       h(i) == Pick(hows, R(key, 10 + i))
   IN [id |-> "refuse/" \o F.id \o "/" \o ToString(k), fam |-> "dispatch",
       ops |-> <<New("a", NoFams(RandMesh(F, key))), New("w", Wrong(F, R(key, 5))),
                 RWrite("w", f, F.fmt, "shape", h(1)), RRead(f, F.rf, "missing", "str"), RRead(f, "", IF F.ext = "" THEN "ext" ELSE "missing", "path"),
                 Write("a", "x", F), RWrite("w", f, F.fmt, "shape", h(2)), Read("x", "b", F),
                 RWrite("a", f, "nosuch" \o ToString(k), "format", h(3)), RWrite("a", "x.nosuch", "", "ext", h(4)), RWrite("a", "plain", "", "ext", h(5)),
                 RRead(f, "nosuch", "format", "str"), RWrite("a", "", "", "buffer", "buffer"), RRead(f, "", "buffer", "buffer"),
                 Read("x", "c", F), [op |-> "look", s |-> "a"]>>]

Mine == SelectSeq([i \in DOMAIN Variants |-> i], LAMBDA i : i % NShards = Shard)
ByName(F) == Implied(F) \/ (F.ext = ".msh" /\ F.fmt = F.rf) \/ F.fmt \in {"gmsh22", "vtk42", "vtk51"}
Of(i) == LET F == Variants[i] IN
   [k \in 1..NRand |-> Refuse(F, i, k)]
   \o (IF ByName(F) THEN [k \in 1..NRand |-> ByExt(F, i, k, F.ext)] ELSE <<>>)
   \o FlattenSeq([q \in DOMAIN AltExts(F) |-> [k \in 1..NRand |-> ByExt(F, i, k, AltExts(F)[q])]])
   \o (IF F.fmt \notin Free /\ F.kw = NoKw THEN [k \in 1..NRand |-> Override(F, i, k)] ELSE <<>>)
Cases == FlattenSeq([j \in DOMAIN Mine |-> Of(Mine[j])])
ASSUME ndJsonSerialize(Out, Cases)
ASSUME PrintT(<<"GENERATED", Len(Cases)>>)
=============================================================================
