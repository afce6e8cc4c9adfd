-------------------------------- MODULE GenCli --------------------------------
(* Command line histories: conversions with every option, chains of in-place *)
(* rewrites, info on sound and unsound meshes, refused requests.             *)
EXTENDS GenLib
CONSTANTS Seed, NRand, Out, Shard, NShards

Look(s) == [op |-> "look", s |-> s]
Cli(cmd, f, s, F) == [op |-> "cli", cmd |-> cmd, f |-> f, s |-> s, g |-> f, fid |-> F.id, ifmt |-> F.rf, ofmt |-> F.rf, i |-> "", max |-> 0, long |-> 0,
                      may |-> <<>>, o |-> "", a |-> 0, ff |-> "", sd |-> 0, ds |-> 0]
\* files a variant writes for stem p
FilesOf(F, p) == <<p \o F.ext, p \o ".h5", p \o ".node", p \o ".ele", p \o "0.bin", p \o "1.bin", p \o "2.bin", p \o "3.bin",
                   p \o "4.bin", p \o "5.bin", p \o "6.bin", p \o "7.bin", p \o "8.bin", p \o "9.bin">>
                 \o (IF F.shape = "dolfin" THEN [i \in 1..30 |-> p \o "_" \o NamePool(F)[((i - 1) % Len(NamePool(F))) + 1] \o F.ext] ELSE <<>>)
\* the variant an in-place command leaves
After(cmd, fmt, mx) ==
   CASE cmd = "ascii" -> (CASE fmt = "gmsh" -> "gmsh41-asc" [] fmt = "xdmf" -> "xdmf-xml" [] fmt = "mdpa" -> "mdpa" [] OTHER -> fmt \o "-asc")
     [] cmd = "binary" -> (CASE fmt = "gmsh" -> "gmsh41-bin" [] fmt \in {"xdmf", "vtu", "mdpa"} -> fmt [] OTHER -> fmt \o "-bin")
     [] cmd = "compress" -> (CASE fmt = "gmsh" -> "gmsh41-bin" [] fmt = "vtu" -> (IF mx = 1 THEN "vtu-lzma" ELSE "vtu")
                               [] fmt \in {"xdmf", "cgns", "h5m", "mdpa"} -> fmt [] OTHER -> fmt \o "-bin")
     [] OTHER -> (CASE fmt = "vtu" -> "vtu-raw" [] fmt = "xdmf" -> "xdmf-h5raw" [] OTHER -> fmt)
Ids == {Variants[i].id : i \in DOMAIN Variants}
Known(id) == IF id \in Ids THEN id ELSE "off"

RECURSIVE Rewr(_, _, _, _, _)
Rewr(f, F, key, j, n) ==
   IF j > n THEN <<>>
   ELSE LET cmd == Pick(<<"ascii", "binary", "compress", "decompress">>, R(key, 30 + j))
            mx == R(key, 50 + j) % 2
            G == Fid(Known(After(cmd, F.rf, mx)))
            s == "p" \o ToString(j)
            imp == IF Chance(R(key, 60 + j), 30) THEN F.rf ELSE ""
        IN <<Read("x", s, F),
             [Cli(cmd, f, s, F) EXCEPT !.fid = G.id, !.max = IF cmd = "compress" THEN mx ELSE 0, !.i = imp, !.may = FilesOf(F, "x"), !.ofmt = F.rf]>>
           \o <<Read("x", "q" \o ToString(j), F)>> \o Rewr(f, F, key, j + 1, n)
InPlace(F, fi, k) ==
   LET key == Mix(Mix(Seed, 3100 + k), 700 + fi)
       f == "x" \o F.ext
   IN [id |-> "inplace/" \o F.id \o "/" \o ToString(k), fam |-> "cli",
       ops |-> <<New("a", RandMesh(F, key)), New("b", RandMesh(F, R(key, 1))), Write("a", "x", F), Write("b", "y", F)>>
               \o Rewr(f, F, key, 1, 1 + (R(key, 2) % 3)) \o <<Read("y", "z", F)>>]

ExtOK(F) == Implied(F) \/ F.fmt \in {"vtk42", "vtk51"}
AsciiOf(G) == CASE G.fmt \in {"stl", "ply", "vtu", "ansys", "flac3d"} -> G.fmt \o "-asc" [] G.fmt \in {"vtk", "vtk42", "vtk51"} -> G.fmt \o "-asc"
                [] G.fmt = "gmsh" -> "gmsh41-asc" [] G.fmt = "gmsh22" -> "gmsh22-asc" [] OTHER -> ""
FloatFmt == {"gmsh", "gmsh22", "abaqus", "mdpa", "medit", "netgen", "tetgen", "flac3d"}
Convert(F, fi, k) ==
   LET key == Mix(Mix(Seed, 3300 + k), 700 + fi)
       m0 == RandMesh(F, key)
       G0 == LET K == SelectSeq(Variants, LAMBDA V1 : Promised(V1, m0) /\ V1.via = "") IN
             IF K = <<>> \/ Chance(R(key, 3), 15) THEN Pick(SelectSeq(Variants, LAMBDA V1 : V1.via = ""), R(key, 4)) ELSE Pick(K, R(key, 4))
       a == IF AsciiOf(G0) # "" /\ Chance(R(key, 5), 50) THEN 1 ELSE 0
       G == IF a = 1 THEN Fid(AsciiOf(G0)) ELSE
            CASE G0.fmt \in {"ansys", "ply", "stl", "vtk", "vtk42", "vtk51", "gmsh22"} -> Fid(G0.fmt \o "-bin")
              [] G0.fmt = "gmsh" -> Fid("gmsh41-bin") [] G0.fmt = "flac3d" -> Fid("flac3d-asc") [] G0.fmt = "vtu" -> Fid("vtu")
              [] G0.fmt = "xdmf" -> Fid("xdmf") [] OTHER -> G0
       needo == ~Implied(G) \/ Chance(R(key, 6), 30)
       needi == F.ext = "" \/ Chance(R(key, 7), 30)
       sd == IF Chance(R(key, 8), 30) /\ G.shape # "dolfin"
                /\ (Names(m0.fd) \cup Names(m0.ps) \cup Names(m0.cs)) \cap (SpacyNames \cup {"top 1"}) = {} THEN 1 ELSE 0
       ds == IF m0.ps = <<>> /\ m0.cs = <<>> /\ sd = 0 /\ (Names(m0.pd) \cup Names(m0.cd)) \cap SpacyNames = {} /\ Chance(R(key, 9), 30) THEN 1 ELSE 0
       g == "out/z" \o G.ext
       ff == IF G.fmt \in FloatFmt /\ ~(G.fmt \in {"stl", "flac3d", "gmsh", "gmsh22"} /\ a = 0) /\ Chance(R(key, 12), 30) THEN ".16e" ELSE ""
   IN [id |-> "convert/" \o F.id \o "+" \o G.id \o "/" \o ToString(k), fam |-> "cli",
       ops |-> <<New("a", m0), Write("a", "x", F), Read("x", "p", F),
                 [Cli("convert", "x" \o F.ext, "p", F) EXCEPT !.g = g, !.fid = G.id, !.ofmt = G.rf, !.o = IF needo THEN G.fmt ELSE "",
                    !.i = IF needi THEN F.rf ELSE "", !.a = a, !.sd = sd, !.ds = ds, !.ff = ff, !.long = R(key, 10) % 2,
                    !.may = FilesOf(G, "out/z") \o
                       (IF G.shape = "dolfin" THEN [i \in DOMAIN m0.cd |-> "out/z_" \o m0.cd[i].n \o G.ext] \o SetToSeq({"out/z_" \o n \o G.ext : n \in F.xcd}) ELSE <<>>)]>>
               \o (IF ds = 1 /\ G.shape = "dolfin" THEN <<>> ELSE <<Read("out/z", "q", G)>>)
               \o <<Read("x", "r", F)>>]

\* info on a mesh that may refer to points that do not exist, or leave points unused
Info(F, fi, k) ==
   LET key == Mix(Mix(Seed, 3500 + k), 700 + fi)
       m == RandMesh(F, key)
       b == 1 + (R(key, 2) % Len(m.blocks)) j == 1 + (R(key, 3) % Len(m.blocks[b].c)) v == 1 + (R(key, 4) % Len(m.blocks[b].c[j]))
       kind == k % 3
       x == CASE kind = 0 -> m
              [] kind = 1 -> [m EXCEPT !.blocks[b].c[j][v] = Len(m.pts) + (R(key, 5) % 2)]
              [] OTHER -> [m EXCEPT !.blocks = [i \in DOMAIN m.blocks |-> [m.blocks[i] EXCEPT !.c = [q \in DOMAIN @ |-> [y \in DOMAIN @[q] |-> @[q][y] % (Len(m.pts) - 1)]]]]]
   IN [id |-> "info/" \o F.id \o "/" \o ToString(k), fam |-> "cli",
       ops |-> <<New("a", x), Write("a", "x", F), Read("x", "p", F), [Cli("info", "x" \o F.ext, "p", F) EXCEPT !.i = IF F.ext = "" THEN F.rf ELSE ""], Look("p")>>]

Missing(F, fi, k) ==
   LET cmd == Pick(<<"ascii", "binary", "compress", "decompress", "info">>, R(Seed, fi + k)) IN
   [id |-> "missing/" \o F.id \o "/" \o ToString(k), fam |-> "cli",
    ops |-> <<New("a", RandMesh(F, Mix(Seed, fi))), Write("a", "y", F), Cli(cmd, "x" \o F.ext, "none", F),
              [Cli("convert", "x" \o F.ext, "none", F) EXCEPT !.g = "out/z" \o F.ext]>>]

Mine == SelectSeq([i \in DOMAIN Variants |-> i], LAMBDA i : i % NShards = Shard)
InfoOK(F) == F.fmt \in {"off", "vtk", "vtk42", "vtk51", "vtu", "xdmf", "gmsh", "gmsh22", "medit", "abaqus", "obj", "avsucd", "ply", "nastran", "mdpa", "netgen", "exodus", "med", "cgns", "hmf", "h5m", "su2", "ugrid", "ansys", "permas"}
Of(i) == LET F == Variants[i] IN
   (IF F.ext # "" THEN [k \in 1..NRand |-> InPlace(F, i, k)] ELSE <<>>)
   \o [k \in 1..(2 * NRand) |-> Convert(F, i, k)] \o (IF InfoOK(F) THEN [k \in 1..(2 * NRand) |-> Info(F, i, k)] ELSE <<>>) \o <<Missing(F, i, 1)>>
Cases == FlattenSeq([j \in DOMAIN Mine |-> Of(Mine[j])])
ASSUME ndJsonSerialize(Out, Cases)
ASSUME PrintT(<<"GENERATED", Len(Cases)>>)
=============================================================================
