------------------------------ MODULE GenForeign ------------------------------
(* Files of other programs. *)
EXTENDS GenLib
CONSTANTS Seed, NRand, Out, Shard, NShards
Say == INSTANCE Foreign

Blank == [dim |-> 3, pdt |-> "f8", prof |-> "plain", lay |-> "c", pd |-> <<>>, cd |-> <<>>, fd |-> <<>>, ps |-> <<>>, cs |-> <<>>, gp |-> <<>>,
          pts |-> <<>>, blocks |-> <<>>]
\* how an array is said: number of components decides what is possible
How(nc, r) ==
   CASE nc \in {0, 1, 2, 4} -> Pick(<<"SCALARS", "FIELD", "SCALARS">>, r)
     [] nc = 3 -> Pick(<<"VECTORS", "FIELD", "SCALARS">>, r)
     [] nc = 9 -> Pick(<<"TENSORS", "FIELD">>, r)
     [] OTHER -> "FIELD"
Arrays(n, key, kind, base) ==
   [i \in 1..(R(key, 300) % 4) |->
      LET k == R(key, 310 + i)
          nc == Pick(<<0, 0, 3, 9, 4, 3>>, R(k, 1))
          dt == Pick(<<"f8", "f4", "i4", "f8", "i8", "u1">>, R(k, 2))
      IN [n |-> <<"temp", "vel", "id_2">>[i], nc |-> nc, dt |-> dt, r |-> MkRows(n, nc, dt, k, base + i), how |-> How(nc, R(k, 3))]]
Strip(s) == [i \in DOMAIN s |-> [n |-> s[i].n, nc |-> s[i].nc, dt |-> s[i].dt, r |-> s[i].r]]
Hows(s) == [i \in DOMAIN s |-> s[i].how]
PerBlock(s) == [i \in DOMAIN s |-> [n |-> s[i].n, nc |-> s[i].nc, dt |-> s[i].dt, r |-> <<s[i].r>>]]

DimsOf(key) ==
   LET n(i) == 2 + (R(key, 320 + i) % 4) r == R(key, 330) % 10
   IN CASE r < 5 -> <<n(1), n(2), n(3)>>
        [] r = 5 -> <<n(1), n(2), 1>> [] r = 6 -> <<n(1), 1, n(2)>> [] r = 7 -> <<1, n(1), n(2)>>
        [] r = 8 -> <<n(1), 1, 1>> [] OTHER -> <<1, 1, n(1)>>
VtkGrid(ds, ver, bin, key) ==
   LET dims == DimsOf(key)
       np == Say!Points3(dims)
       nc == Say!NCellsOf(dims)
       pd == Arrays(np, key, "p", 0)
       cd == Arrays(nc, R(key, 2), "c", 10)
   IN [op |-> "foreign", kind |-> "vtk", f |-> "x.vtk", fid |-> IF bin THEN "vtk-bin" ELSE "vtk-asc", ds |-> ds, ver |-> ver, bin |-> bin, dims |-> dims,
       aspect |-> Chance(R(key, 340), 30), cellsfirst |-> Chance(R(key, 341), 40), table |-> Pick(<<"none", "none", "lut", "color">>, R(key, 342)),
       meta |-> Chance(R(key, 343), 30),
       ph |-> Hows(pd), ch |-> Hows(cd),
       m |-> [Blank EXCEPT !.prof = CASE ds = "STRUCTURED_POINTS" -> "lattice" [] ds = "RECTILINEAR_GRID" -> "axes" [] OTHER -> "plain",
                           !.pdt = IF ds # "STRUCTURED_POINTS" /\ Chance(R(key, 344), 30) THEN "f4" ELSE "f8",
                           !.pts = IF ds = "STRUCTURED_GRID" THEN [i \in 1..np |-> i + (R(key, 15) % 500)] ELSE Say!LatticePoints(dims),
                           !.pd = Strip(pd), !.cd = PerBlock(cd),
                           !.blocks = <<[t |-> Say!GridType(dims), dt |-> "i8", c |-> Say!GridCells(dims)]>>]]
Simple == <<"vertex", "line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid">>
VtkCells(ver, bin, key) ==
   LET np == PrimeAbove(8, SizeExtra(R(key, 12)))
       nb == 1 + (R(key, 8) % 3)
       blocks == [i \in 1..nb |-> MkBlock(Simple[((R(key, 9) + 3 * i) % 8) + 1], "i8", NCells(R(key, 40 + i)), np, R(key, 30 + i))]
       n == SumSeq([i \in 1..nb |-> Len(blocks[i].c)])
       off(b) == SumSeq([i \in 1..(b - 1) |-> Len(blocks[i].c)])
       pd == Arrays(np, key, "p", 0)
       cd == Arrays(n, R(key, 2), "c", 10)
   IN [op |-> "foreign", kind |-> "vtk", f |-> "x.vtk", fid |-> IF bin THEN "vtk-bin" ELSE "vtk-asc", ds |-> "UNSTRUCTURED_GRID", ver |-> ver, bin |-> bin,
       dims |-> <<0, 0, 0>>, aspect |-> FALSE, cellsfirst |-> Chance(R(key, 341), 40), table |-> Pick(<<"none", "none", "lut", "color">>, R(key, 342)),
       meta |-> Chance(R(key, 343), 30), ph |-> Hows(pd), ch |-> Hows(cd),
       m |-> [Blank EXCEPT !.pdt = IF Chance(R(key, 344), 30) THEN "f4" ELSE "f8", !.pts = [i \in 1..np |-> i + (R(key, 15) % 500)],
                           !.pd = Strip(pd), !.blocks = blocks,
                           !.cd = [i \in DOMAIN cd |-> [n |-> cd[i].n, nc |-> cd[i].nc, dt |-> cd[i].dt,
                                     r |-> [b \in 1..nb |-> SubSeq(cd[i].r, off(b) + 1, off(b) + Len(blocks[b].c))]]]]]
VtkFile(k) ==
   LET key == Mix(Mix(Seed, 8800 + k), 17)
       bin == k % 2 = 0
       ver == Pick(<<"4.2", "5.1", "3.0", "2.0", "4.1", "5.1">>, R(key, 400))
       ds == Pick(<<"STRUCTURED_POINTS", "RECTILINEAR_GRID", "STRUCTURED_GRID", "UNSTRUCTURED_GRID">>, R(key, 401))
       d == IF ds = "UNSTRUCTURED_GRID" THEN VtkCells(ver, bin, key) ELSE VtkGrid(ds, ver, bin, key)
   IN [id |-> "foreign/vtk/" \o ds \o "/" \o ver \o "/" \o (IF bin THEN "bin" ELSE "asc") \o "/" \o ToString(k), fam |-> "foreign",
       ops |-> <<d, [op |-> "read", s |-> "b", f |-> "x.vtk", fid |-> d.fid, fmt |-> "vtk"]>>]

\* ---- VTU --------------------------------------------------------------------
\* one piece; the arrays (names, components, types) are the same in all pieces
Piece(p, key, pdt, pa, ca) ==
   LET kp == Mix(key, 70 + p)
       np == PrimeAbove(8, SizeExtra(R(kp, 12)))
       nb == 1 + (R(kp, 8) % 3)
       blocks == [i \in 1..nb |-> MkBlock(Simple[((R(kp, 9) + 3 * i) % 8) + 1], "i8", NCells(R(kp, 40 + i)), np, R(kp, 30 + i))]
   IN [Blank EXCEPT !.pdt = pdt, !.pts = [i \in 1..np |-> i + 2000 * p + (R(kp, 15) % 500)], !.blocks = blocks,
         !.pd = [a \in DOMAIN pa |-> [n |-> pa[a].n, nc |-> pa[a].nc, dt |-> pa[a].dt, r |-> MkRows(np, pa[a].nc, pa[a].dt, R(kp, a), a + 40 * p)]],
         !.cd = [a \in DOMAIN ca |-> [n |-> ca[a].n, nc |-> ca[a].nc, dt |-> ca[a].dt,
                   r |-> [b \in DOMAIN blocks |-> MkRows(Len(blocks[b].c), ca[a].nc, ca[a].dt, R(kp, 20 + a + b), 10 + 3 * a + b + 40 * p)]]]]
Hollow(pc) == [pc EXCEPT !.pts = <<>>, !.blocks = <<>>, !.pd = [a \in DOMAIN @ |-> [@[a] EXCEPT !.r = <<>>]], !.cd = [a \in DOMAIN @ |-> [@[a] EXCEPT !.r = <<>>]]]
ArrayKinds(key) ==
   [i \in 1..(R(key, 300) % 4) |->
      LET k == R(key, 310 + i)
      IN [n |-> <<"temp", "vel", "id 2">>[i], nc |-> Pick(<<0, 0, 3, 9, 2, 3>>, R(k, 1)),
          dt |-> Pick(<<"f8", "f4", "i4", "f8", "i8", "u1", "i2", "u4">>, R(k, 2))]]
\* two arrays with the same content may be stored once
Twin(m, on) == IF on /\ Len(m.pd) > 1 THEN [m EXCEPT !.pd[2] = [m.pd[1] EXCEPT !.n = m.pd[2].n]] ELSE m
VtuFile(k) ==
   LET key == Mix(Mix(Seed, 9900 + k), 17)
       enc == Pick(<<"ascii", "binary", "appraw", "app64">>, k)
       npieces == Pick(<<1, 1, 2, 3>>, R(key, 1))
       pdt == Pick(<<"f8", "f4">>, R(key, 2))
       pa == ArrayKinds(key) ca == ArrayKinds(R(key, 3))
       comp == IF enc = "ascii" THEN "none" ELSE Pick(<<"none", "zlib", "lzma">>, R(key, 4))
       d == [op |-> "foreign", kind |-> "vtu", f |-> "x.vtu", fid |-> "vtu", enc |-> enc, comp |-> comp,
             hdr |-> Pick(<<"", "UInt32", "UInt64">>, R(key, 5)), bo |-> Pick(<<"LittleEndian", "LittleEndian", "BigEndian">>, R(key, 6)),
             ver |-> Pick(<<"0.1", "1.0">>, R(key, 7)), blk |-> Pick(<<32, 96, 4096, 32768>>, R(key, 8)), sep |-> Chance(R(key, 9), 50),
             conn |-> Pick(<<"i4", "i8", "i8">>, R(key, 10)), turn |-> R(key, 11) % 6, first |-> Chance(R(key, 12), 50), spare |-> Chance(R(key, 13), 40),
             share |-> Chance(R(key, 16), 50),
             m |-> [pieces |-> [p \in 1..npieces |-> LET pc == Twin(Piece(p, key, pdt, pa, ca), Chance(R(key, 16), 50)) IN IF npieces = 3 /\ p = 1 + (R(key, 14) % 3) /\ Chance(R(key, 15), 50) THEN Hollow(pc) ELSE pc]]]
   IN [id |-> "foreign/vtu/" \o enc \o "/" \o comp \o "/" \o ToString(npieces) \o "/" \o ToString(k), fam |-> "foreign",
       ops |-> <<d, [op |-> "read", s |-> "b", f |-> "x.vtu", fid |-> d.fid, fmt |-> "vtu"]>>]

\* ---- XDMF -------------------------------------------------------------------
XTypes == <<"vertex", "line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid", "line3", "triangle6", "quad8", "quad9", "tetra10",
            "hexahedron20", "hexahedron27", "wedge15", "pyramid13">>
XdmfFile(k) ==
   LET key == Mix(Mix(Seed, 12100 + k), 17)
       v2 == R(key, 1) % 2 = 0
       dim == IF ~v2 /\ Chance(R(key, 2), 30) THEN 2 ELSE 3
       nb == Pick(<<1, 1, 2, 3>>, R(key, 3))
       np == PrimeAbove(27, SizeExtra(R(key, 12)))
       blocks == [i \in 1..nb |-> MkBlock(XTypes[((R(key, 9) + 5 * i) % Len(XTypes)) + 1], "i8", NCells(R(key, 40 + i)), np, R(key, 30 + i))]
       pa == ArrayKinds(key) ca == ArrayKinds(R(key, 4))
       pd == [a \in DOMAIN pa |-> [n |-> pa[a].n, nc |-> pa[a].nc, dt |-> pa[a].dt, r |-> MkRows(np, pa[a].nc, pa[a].dt, R(key, a), a)]]
       twin == Len(pd) = 2 /\ Chance(R(key, 5), 60)
       cd == [a \in DOMAIN ca |-> [n |-> ca[a].n, nc |-> ca[a].nc, dt |-> ca[a].dt,
                   r |-> [b \in DOMAIN blocks |-> MkRows(Len(blocks[b].c), ca[a].nc, ca[a].dt, R(key, 20 + a + b), 10 + 3 * a + b)]]]
       d == [op |-> "foreign", kind |-> "xdmf", f |-> "x.xdmf", fid |-> "xdmf", ver |-> IF v2 THEN Pick(<<"2.0", "2.2", "2">>, R(key, 6)) ELSE Pick(<<"3.0", "3">>, R(key, 6)),
             how |-> [i \in 1..10 |-> Pick(<<"XML", "HDF", "Binary">>, IF Chance(R(key, 7), 50) THEN R(key, 60 + i) ELSE R(key, 60))],
             alias |-> R(key, 8) % 2, newkeys |-> ~v2 /\ Chance(R(key, 10), 60), dtkey |-> Pick(<<"NumberType", "DataType">>, R(key, 11)),
             conn |-> Pick(<<"i4", "i8", "u4">>, R(key, 13)), wrap |-> Chance(R(key, 14), 50), first |-> Chance(R(key, 15), 40),
             lower |-> Chance(R(key, 16), 30), nogeo |-> v2 /\ Chance(R(key, 17), 30), slash |-> Chance(R(key, 18), 70), col |-> Chance(R(key, 19), 30),
             default |-> Chance(R(key, 20), 40), twin |-> twin, grid |-> v2 /\ Chance(R(key, 21), 20),
             m |-> [Blank EXCEPT !.dim = dim, !.pdt = Pick(<<"f8", "f4">>, R(key, 22)), !.pts = [i \in 1..np |-> i + (R(key, 23) % 500)], !.blocks = blocks,
                      !.pd = IF twin THEN <<pd[1], [pd[1] EXCEPT !.n = pd[2].n]>> ELSE pd, !.cd = cd]]
   IN [id |-> "foreign/xdmf/" \o d.ver \o "/" \o (IF nb = 1 THEN "one" ELSE "mixed") \o "/" \o ToString(k), fam |-> "foreign",
       ops |-> <<d, [op |-> "read", s |-> "b", f |-> "x.xdmf", fid |-> d.fid, fmt |-> "xdmf"]>>]

\* ---- PLY --------------------------------------------------------------------
PlyArrays(key) ==
   [i \in 1..(R(key, 300) % 4) |->
      [n |-> <<"nx", "red", "quality">>[i], nc |-> 0, dt |-> Pick(<<"f8", "f4", "i4", "u1", "i2", "u4", "u2", "i1">>, R(R(key, 310 + i), 2))]]
PlyFile(k) ==
   LET key == Mix(Mix(Seed, 13100 + k), 17)
       np == PrimeAbove(8, SizeExtra(R(key, 12)))
       nb == 1 + (R(key, 3) % 3)
       nn == [i \in 1..nb |-> Pick(<<3, 4, 5, 7, 3, 4>>, R(key, 9) + i)]
       blocks == [i \in 1..nb |->
          [t |-> CASE nn[i] = 3 -> "triangle" [] nn[i] = 4 -> "quad" [] OTHER -> "polygon", dt |-> "i8",
           c |-> [c \in 1..NCells(R(key, 40 + i)) |-> LET s == R(key, 50 + i) + c st == 1 + (R(key, 60 + i + c) % (np - 1)) IN [q \in 1..nn[i] |-> (s + q * st) % np]]]]
       pa == PlyArrays(key) ca == PlyArrays(R(key, 4))
       d == [op |-> "foreign", kind |-> "ply", f |-> "x.ply", fid |-> "ply-bin", enc |-> Pick(<<"ascii", "little", "big">>, k),
             count |-> Pick(<<"uchar", "int", "uint8", "ushort", "uint">>, R(key, 5)), index |-> Pick(<<"int", "uint", "int32", "short">>, R(key, 6)),
             name |-> Pick(<<"vertex_indices", "vertex_index">>, R(key, 7)), old |-> Chance(R(key, 8), 60), at |-> R(key, 10) % 4, coord |-> R(key, 11) % 4,
             tex |-> Pick(<<"none", "none", "before", "after">>, R(key, 13)), note |-> Chance(R(key, 14), 50),
             m |-> [Blank EXCEPT !.dim = 3, !.pdt = Pick(<<"f8", "f4">>, R(key, 22)), !.pts = [i \in 1..np |-> i + (R(key, 23) % 500)], !.blocks = blocks,
                      !.pd = [a \in DOMAIN pa |-> [n |-> pa[a].n, nc |-> 0, dt |-> pa[a].dt, r |-> MkRows(np, 0, pa[a].dt, R(key, a), a)]],
                      !.cd = [a \in DOMAIN ca |-> [n |-> ca[a].n, nc |-> 0, dt |-> ca[a].dt,
                               r |-> [b \in DOMAIN blocks |-> MkRows(Len(blocks[b].c), 0, ca[a].dt, R(key, 20 + a + b), 10 + 3 * a + b)]]]]]
   IN [id |-> "foreign/ply/" \o d.enc \o "/" \o d.tex \o "/" \o ToString(k), fam |-> "foreign",
       ops |-> <<d, [op |-> "read", s |-> "b", f |-> "x.ply", fid |-> d.fid, fmt |-> "ply"]>>]

\* ---- Exodus, binary Medit, Tecplot ---------------------------------------------
Scalars(key, names, dts) ==
   [i \in 1..(R(key, 300) % (Len(names) + 1)) |-> [n |-> names[i], nc |-> 0, dt |-> Pick(dts, R(R(key, 310 + i), 2))]]
Some(key, np, types, nb, pa, ca) ==
   LET blocks == [i \in 1..nb |-> MkBlock(types[((R(key, 9) + 3 * i) % Len(types)) + 1], "i8", NCells(R(key, 40 + i)), np, R(key, 30 + i))]
   IN [Blank EXCEPT !.pts = [i \in 1..np |-> i + (R(key, 23) % 500)], !.blocks = blocks,
         !.pd = [a \in DOMAIN pa |-> [n |-> pa[a].n, nc |-> 0, dt |-> pa[a].dt, r |-> MkRows(np, 0, pa[a].dt, R(key, a), a)]],
         !.cd = [a \in DOMAIN ca |-> [n |-> ca[a].n, nc |-> 0, dt |-> ca[a].dt,
                   r |-> [b \in DOMAIN blocks |-> MkRows(Len(blocks[b].c), 0, ca[a].dt, R(key, 20 + a + b), 10 + 3 * a + b)]]]]
ExoTypes == <<"vertex", "line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid", "triangle6", "tetra10", "quad8">>
ExoFile(k) ==
   LET key == Mix(Mix(Seed, 14100 + k), 17)
       np == PrimeAbove(11, SizeExtra(R(key, 12)))
       nb == 1 + (R(key, 3) % 4)
       names == <<"temp", "speed", "dist_R", "q">>
       m == Some(key, np, ExoTypes, nb, Scalars(key, names, <<"f8">>), Scalars(R(key, 4), names, <<"f8">>))
       d == [op |-> "foreign", kind |-> "exodus", f |-> "x.e", fid |-> "exodus", model |-> Pick(<<"NETCDF3_CLASSIC", "NETCDF4", "NETCDF3_64BIT_OFFSET">>, k),
             coord |-> Pick(<<"coord", "xyz">>, R(key, 5)), steps |-> Pick(<<1, 1, 2, 3>>, R(key, 6)), spell |-> R(key, 7) % 6, turn |-> R(key, 8) % 6,
             mix |-> Chance(R(key, 10), 60),
             m |-> [m EXCEPT !.pd = @ \o (IF Chance(R(key, 13), 50) THEN <<[n |-> "vel", nc |-> 3, dt |-> "f8", r |-> MkRows(np, 3, "f8", R(key, 14), 7)]>> ELSE <<>>)
                                    \o (IF Chance(R(key, 15), 40) THEN <<[n |-> "pol", nc |-> 2, dt |-> "f8", r |-> MkRows(np, 2, "f8", R(key, 16), 8)]>> ELSE <<>>),
                              !.ps = [i \in 1..(R(key, 210) % 4) |-> [n |-> SetNames[i],
                        m |-> <<i - 1>> \o SelectSeq([j \in 1..np |-> j - 1], LAMBDA j : j # i - 1 /\ R(key, 220 + j) % 5 = i)]]]]
   IN [id |-> "foreign/exodus/" \o d.model \o "/" \o ToString(k), fam |-> "foreign",
       ops |-> <<d, [op |-> "read", s |-> "b", f |-> "x.e", fid |-> d.fid, fmt |-> "exodus"]>>]
MeditTypes == <<"line", "triangle", "quad", "tetra", "wedge", "hexahedron", "pyramid">>
MeditFile(k) ==
   LET key == Mix(Mix(Seed, 15100 + k), 17)
       dim == IF Chance(R(key, 2), 30) THEN 2 ELSE 3
       np == PrimeAbove(8, SizeExtra(R(key, 12)))
       nb == 1 + (R(key, 3) % 4)
       ver == 1 + (k % 4)
       m0 == Some(key, np, IF dim = 2 THEN SubSeq(MeditTypes, 1, 3) ELSE MeditTypes, IF dim = 2 THEN Min2(nb, 3) ELSE nb, <<>>, <<>>)
       W(v) == Pick(<<0, 1, 2, -3, 255, 65536, 7, 123456>>, v)
       m == [m0 EXCEPT !.dim = dim, !.pdt = IF ver = 1 THEN "f4" ELSE "f8",
               !.pd = <<[n |-> "medit:ref", nc |-> 0, dt |-> "i8", r |-> [i \in 1..np |-> W(R(key, 500 + i))]]>>,
               !.cd = <<[n |-> "medit:ref", nc |-> 0, dt |-> "i8", r |-> [b \in DOMAIN m0.blocks |-> [i \in DOMAIN m0.blocks[b].c |-> W(R(key, 600 + 30 * b + i))]]]>>]
       d == [op |-> "foreign", kind |-> "meditb", f |-> "x.meshb", fid |-> "medit-bin", ver |-> ver, big |-> Chance(R(key, 5), 40),
             corners |-> R(key, 6) % 3, ridges |-> Chance(R(key, 7), 40), late |-> Chance(R(key, 8), 30), endpos |-> Chance(R(key, 10), 50), m |-> m]
   IN [id |-> "foreign/medit/" \o ToString(ver) \o (IF d.big THEN "big" ELSE "little") \o "/" \o ToString(k), fam |-> "foreign",
       ops |-> <<d, [op |-> "read", s |-> "b", f |-> "x.meshb", fid |-> d.fid, fmt |-> "medit"]>>]
TecFile(k) ==
   LET key == Mix(Mix(Seed, 16100 + k), 17)
       dim == IF Chance(R(key, 2), 30) THEN 2 ELSE 3
       np == PrimeAbove(8, SizeExtra(R(key, 12)))
       names == <<"temp", "speed", "q">>
       cnames == <<"cval", "B.1", "zz">>
       pack == Pick(<<"POINT", "BLOCK", "BLOCK">>, R(key, 3))
       m0 == Some(key, np, IF dim = 2 THEN <<"line", "triangle", "quad">> ELSE <<"line", "triangle", "quad", "tetra", "hexahedron">>, 1,
                  Scalars(key, names, <<"f8">>), IF pack = "BLOCK" THEN Scalars(R(key, 4), cnames, <<"f8">>) ELSE <<>>)
       c(i) == Chance(R(key, 700 + i), 50)
       d == [op |-> "foreign", kind |-> "tecplot", f |-> "x.dat", fid |-> "tecplot", pack |-> pack, low |-> c(1), title |-> c(2), quoted |-> c(3),
             vlines |-> c(4), vlow |-> c(5), comma |-> c(6), space |-> c(7), long |-> c(8), zt |-> c(9), old |-> c(10), nv |-> Chance(R(key, 711), 30), front |-> Chance(R(key, 717), 40),
             loc |-> Pick(<<"range", "both", "each">>, R(key, 712)), zlines |-> c(13), plus |-> c(14), width |-> 1 + (R(key, 715) % 7), note |-> c(16),
             m |-> [m0 EXCEPT !.dim = dim]]
   IN [id |-> "foreign/tecplot/" \o pack \o "/" \o m0.blocks[1].t \o "/" \o ToString(k), fam |-> "foreign",
       ops |-> <<d, [op |-> "read", s |-> "b", f |-> "x.dat", fid |-> d.fid, fmt |-> "tecplot"]>>]

\* ---- Nastran, Abaqus, Gmsh ----------------------------------------------------
NoRef == [n |-> "nastran:ref", nc |-> 0, dt |-> "i8"]
NasTypes == <<"line", "triangle", "quad", "tetra", "pyramid", "wedge", "hexahedron", "triangle6", "quad8", "tetra10", "pyramid13", "wedge15", "hexahedron20">>
NasFile(k) ==
   LET key == Mix(Mix(Seed, 17100 + k), 17)
       np == PrimeAbove(20, SizeExtra(R(key, 12)))
       nb == 1 + (R(key, 3) % 4)
       m0 == Some(key, np, NasTypes, nb, <<>>, <<>>)
       blank == Pick(<<0, 40, 80, 100>>, R(key, 4))              \* how many have no reference
       pblank == Pick(<<0, 40, 100>>, R(key, 5))
       lab(q, bl) == IF Chance(R(key, q), bl) THEN 0 ELSE 1 + (R(key, q + 1) % 9)
       pr == [i \in 1..np |-> lab(800 + 2 * i, pblank)]
       cr == [b \in DOMAIN m0.blocks |-> [i \in DOMAIN m0.blocks[b].c |-> lab(2000 + 100 * b + 2 * i, blank)]]
       some(s) == \E i \in DOMAIN s : s[i] # 0
       d == [op |-> "foreign", kind |-> "nastran", f |-> "x.bdf", fid |-> "nastran", seed |-> R(key, 6),
             step |-> 1 + (R(key, 7) % 3), spell |-> R(key, 8) % 6, cont |-> Pick(<<"plain", "named", "auto">>, R(key, 9)), extra |-> Chance(R(key, 10), 50),
             real |-> Pick(<<"E", "bare", "D">>, R(key, 11)), other |-> Chance(R(key, 13), 50), note |-> Chance(R(key, 14), 50), elfirst |-> Chance(R(key, 15), 30),
             m |-> [m0 EXCEPT !.pd = IF some(pr) THEN <<NoRef @@ [r |-> pr]>> ELSE <<>>, !.cd = IF \E b \in DOMAIN cr : some(cr[b]) THEN <<NoRef @@ [r |-> cr]>> ELSE <<>>]]
   IN [id |-> "foreign/nastran/" \o d.cont \o "/" \o ToString(k), fam |-> "foreign",
       ops |-> <<d, [op |-> "read", s |-> "b", f |-> "x.bdf", fid |-> d.fid, fmt |-> "nastran"]>>]

AbqTypes == <<"line", "triangle", "quad", "tetra", "wedge", "hexahedron", "line3", "triangle6", "quad8", "tetra10", "hexahedron20", "wedge15">>
AbqNames == <<"alpha", "Beta", "g-3", "D_4">>
AbqFile(k) ==
   LET key == Mix(Mix(Seed, 18100 + k), 17)
       np == PrimeAbove(20, SizeExtra(R(key, 12)))
       nb == 1 + (R(key, 3) % 4)
       m0 == Some(key, np, AbqTypes, nb, <<>>, <<>>)
       nc == SumSeq([b \in DOMAIN m0.blocks |-> Len(m0.blocks[b].c)])
       ns == R(key, 4) % 6
       nset == Pick(<<"", "", "alpha", "Nall">>, R(key, 5))
       eset == [b \in DOMAIN m0.blocks |-> Pick(<<"", "alpha", "Eall", "Beta">>, R(key, 40 + b))]
       \* sets so far, of the kind of statement i
       kind(i) == IF R(key, 100 + i) % 2 = 0 THEN "n" ELSE "e"
       name(i) == Pick(AbqNames, R(key, 120 + i))
       before(i) == {name(j) : j \in {j \in 1..(i - 1) : kind(j) = kind(i)}}
       given(i) == IF kind(i) = "n" THEN {nset} ELSE {eset[b] : b \in DOMAIN eset}
       known(i) == (before(i) \cup given(i)) \ {""}
       pool(i) == SetToSeq(known(i) \ {name(i)})
       stat(i) ==
          LET lim == IF kind(i) = "n" THEN np ELSE nc
              gen == Chance(R(key, 140 + i), 40)
              first == R(key, 160 + i) % lim
              inc == 1 + (R(key, 180 + i) % 3)
              cnt == 1 + (R(key, 200 + i) % (1 + ((lim - 1 - first) \div inc)))
              ids == IF gen THEN <<>> ELSE <<R(key, 230 + i) % lim>> \o SelectSeq([j \in 1..lim |-> j - 1], LAMBDA j : Chance(R(key, 300 + 50 * i + j), 40))
              two == gen /\ Chance(R(key, 220 + i), 40)
          IN [k |-> kind(i), n |-> name(i), ids |-> ids, gen |-> IF gen THEN <<<<first, cnt, inc>>>> \o (IF two THEN <<<<0, 1 + (lim \div 3), 1>>>> ELSE <<>>) ELSE <<>>,
              refs |-> IF gen \/ pool(i) = <<>> THEN <<>> ELSE SelectSeq(pool(i), LAMBDA x : Chance(R(key, 240 + i), 60)), width |-> Pick(<<1, 3, 16>>, R(key, 260 + i)), mixed |-> Chance(R(key, 280 + i), 50)]
       stats == [i \in 1..ns |-> stat(i)]
       d == [op |-> "foreign", kind |-> "abaqus", f |-> "x.inp", fid |-> "abaqus", nset |-> nset, eset |-> eset, stats |-> SelectSeq(stats, LAMBDA s : s.ids # <<>> \/ s.gen # <<>> \/ s.refs # <<>>),
             pstep |-> 1 + (R(key, 7) % 3), estep |-> 1 + (R(key, 8) % 3), spell |-> R(key, 9), low |-> Chance(R(key, 10), 40), split |-> Chance(R(key, 11), 40),
             note |-> Chance(R(key, 13), 50), sp |-> Chance(R(key, 14), 50), other |-> Chance(R(key, 15), 50), m |-> m0]
   IN [id |-> "foreign/abaqus/" \o ToString(k), fam |-> "foreign",
       ops |-> <<d, [op |-> "read", s |-> "b", f |-> "x.inp", fid |-> d.fid, fmt |-> "abaqus"]>>]

GmTypes == <<"line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid", "vertex", "line3", "triangle6", "quad9">>
GmArrays(key) ==
   [i \in 1..(R(key, 300) % 4) |-> [n |-> <<"temp", "my vel", "q.3">>[i], nc |-> Pick(<<0, 3, 9, 0>>, R(R(key, 310 + i), 1)), dt |-> "f8", hole |-> Chance(R(R(key, 310 + i), 2), 40)]]
NANTOK == BIGTOK + 9999999
Holes(r, hole, q) == [i \in DOMAIN r |-> IF hole /\ (i + q) % 3 = 0 THEN NANTOK ELSE r[i]]
GmFile(k) ==
   LET key == Mix(Mix(Seed, 19100 + k), 17)
       bin == (k \div 2) % 2 = 0
       v4 == k % 2 = 0
       np == PrimeAbove(9, SizeExtra(R(key, 12)))
       nb == 1 + (R(key, 3) % 4)
       m0 == Some(key, np, GmTypes, nb, <<>>, <<>>)
       n == Len(m0.blocks)
       pa == GmArrays(key) ca == GmArrays(R(key, 4))
       \* labels: groups of block b (4.1: of its entity; 2.2: the first of them)
       groups == [b \in 1..n |-> Pick(<<<<>>, <<3>>, <<1, 2>>, <<2, 3>>, <<1>>, <<2, 1>>>>, R(key, 20 + b))]
       ent == v4 /\ Chance(R(key, 5), 80)
       nt == [b \in 1..n |-> IF v4 THEN 0 ELSE Pick(<<2, 2, 3, 4, 0>>, R(key, 30 + b))]
       phys(b) == IF v4 THEN (IF ent /\ groups[b] # <<>> THEN groups[b][1] ELSE 0) ELSE IF nt[b] = 0 THEN 0 ELSE 1 + (R(key, 50 + b) % 4)
       geom(b) == IF v4 \/ nt[b] # 0 THEN 10 + 3 * b ELSE 0
       each(g(_)) == [b \in 1..n |-> [i \in DOMAIN m0.blocks[b].c |-> g(b)]]
       lab == [nc |-> 0, dt |-> "i8"]
       tags == (IF (v4 /\ \E b \in 1..n : phys(b) # 0) \/ (~v4 /\ \E b \in 1..n : nt[b] # 0) THEN <<lab @@ [n |-> "gmsh:physical", r |-> each(phys)]>> ELSE <<>>)
               \o (IF v4 \/ \E b \in 1..n : nt[b] # 0 THEN <<lab @@ [n |-> "gmsh:geometrical", r |-> each(geom)]>> ELSE <<>>)
       cut == <<np \div 3, np \div 2>>
       node(i) == IF i <= cut[1] THEN 1051 ELSE IF i <= cut[2] THEN 2007 ELSE 3052
       names == [i \in 1..(R(key, 6) % 4) |-> [n |-> <<"inlet", "wall 2", "Body">>[i], v |-> <<i, 1 + (R(key, 60 + i) % 3)>>]]
       d == [op |-> "foreign", kind |-> "gmsh", f |-> "x.msh", fid |-> (IF v4 THEN "gmsh41-" ELSE "gmsh22-") \o (IF bin THEN "bin" ELSE "asc"), v4 |-> v4, bin |-> bin, ent |-> ent,
             groups |-> groups, nt |-> nt, size |-> Pick(<<8, 8, 8, 4>>, R(key, 7)), nid |-> [i \in 1..np |-> IF Chance(R(key, 8), 50) THEN 3 + 2 * i ELSE 2 + ((5 * i) % np)],
             eorder |-> R(key, 9) % 3, note |-> Chance(R(key, 10), 50), late |-> Chance(R(key, 11), 40), strs |-> 1 + (R(key, 13) % 2), reals |-> R(key, 14) % 3, ints |-> 3 + (R(key, 15) % 2),
             turn |-> R(key, 16) % 5, sep |-> Chance(R(key, 17), 50), brep |-> R(key, 18) % 3,
             m |-> [m0 EXCEPT !.fd = names, !.pd = (IF v4 THEN <<[n |-> "gmsh:dim_tags", nc |-> 2, dt |-> "i8", r |-> [i \in 1..np |-> node(i)]]>> ELSE <<>>)
                         \o [a \in DOMAIN pa |-> [n |-> pa[a].n, nc |-> pa[a].nc, dt |-> "f8", r |-> Holes(MkRows(np, pa[a].nc, "f8", R(key, a), a), pa[a].hole, a)]],
                      !.cd = tags \o [a \in DOMAIN ca |-> [n |-> ca[a].n, nc |-> ca[a].nc, dt |-> "f8",
                         r |-> [b \in 1..n |-> Holes(MkRows(Len(m0.blocks[b].c), ca[a].nc, "f8", R(key, 20 + a + b), 10 + 3 * a + b), ca[a].hole, b)]]]]]
   IN [id |-> "foreign/gmsh/" \o d.fid \o "/" \o ToString(k), fam |-> "foreign",
       ops |-> <<d, [op |-> "read", s |-> "b", f |-> "x.msh", fid |-> d.fid, fmt |-> "gmsh"]>>]

MedTypes == <<"vertex", "line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid", "line3", "triangle6", "quad8", "tetra10", "hexahedron20", "wedge15">>
MedTimes == <<"0", "0.5", "1.25">>
MedFile(k) ==
   LET key == Mix(Mix(Seed, 20100 + k), 17)
       dim == IF Chance(R(key, 2), 20) THEN 2 ELSE 3
       np == PrimeAbove(21, SizeExtra(R(key, 12)))
       nb == 1 + (R(key, 3) % 4)
       m0 == Some(key, np, MedTypes, nb, <<>>, <<>>)
       nf == R(key, 4) % 4
       \* a field: on the points, on the cells, or on both; one or several time steps
       fields == [i \in 1..nf |-> [n |-> <<"temp", "A_long name_depl", "sig">>[i], on |-> Pick(<<"p", "c", "pc">>, R(key, 20 + i)), nc |-> Pick(<<0, 2, 3, 6>>, R(key, 30 + i)),
                                    t |-> 1 + Pick(<<0, 0, 1, 2>>, R(key, 40 + i)), hole |-> Chance(R(key, 50 + i), 40), part |-> Chance(R(key, 60 + i), 40)]]
       name(i, s) == IF fields[i].t = 1 THEN fields[i].n ELSE fields[i].n \o "[" \o ToString(s - 1) \o "] - " \o MedTimes[s]
       all(on) == FlattenSeq([i \in 1..nf |-> IF fields[i].on \in {on, "pc"} THEN [s \in 1..fields[i].t |-> <<i, s>>] ELSE <<>>])
       gone(i, b) == fields[i].part /\ b # 1 + (i % nb) /\ (b + i) % 2 = 0
       pd == [a \in DOMAIN all("p") |-> LET i == all("p")[a][1] s == all("p")[a][2] IN
                [n |-> name(i, s), nc |-> fields[i].nc, dt |-> "f8", r |-> Holes(MkRows(np, fields[i].nc, "f8", R(key, 70 + a), a), fields[i].hole, 1)]]
       cd == [a \in DOMAIN all("c") |-> LET i == all("c")[a][1] s == all("c")[a][2] IN
                [n |-> name(i, s), nc |-> fields[i].nc, dt |-> "f8",
                 r |-> [b \in DOMAIN m0.blocks |-> LET r == MkRows(Len(m0.blocks[b].c), fields[i].nc, "f8", R(key, 80 + 10 * a + b), 20 + 5 * a + b)
                        IN IF gone(i, b) THEN [j \in DOMAIN r |-> NANTOK] ELSE Holes(r, fields[i].hole, 1)]]]
       fp == Chance(R(key, 5), 60)
       fc == [b \in 1..nb |-> Chance(R(key, 6), 70) /\ Chance(R(key, 100 + b), 70)]
       lab(v) == Pick(<<0, -3, 5, 12, 0, -901>>, v)
       m == [mt |-> [p |-> IF fp THEN MkFams(1, R(key, 7)) ELSE <<>>, c |-> MkFams(-1, R(key, 8)) \o (IF Chance(R(key, 14), 30) THEN <<[i |-> -77, n |-> <<>>]>> ELSE <<>>)]] @@
            [m0 EXCEPT !.dim = dim,
               !.pd = (IF fp THEN <<[n |-> "point_tags", nc |-> 0, dt |-> "i8", r |-> [i \in 1..np |-> lab(R(key, 200 + i))]]>> ELSE <<>>) \o pd,
               !.cd = (IF \E b \in 1..nb : fc[b] THEN <<[n |-> "cell_tags", nc |-> 0, dt |-> "i8",
                          r |-> [b \in 1..nb |-> [i \in DOMAIN m0.blocks[b].c |-> IF fc[b] THEN lab(R(key, 300 + 20 * b + i)) ELSE 0]]]>> ELSE <<>>) \o cd]
       d == [op |-> "foreign", kind |-> "med", f |-> "x.med", fid |-> "med", fields |-> fields, fp |-> fp, fc |-> fc, infas |-> Chance(R(key, 9), 20),
             flat |-> Chance(R(key, 10), 20), empty |-> Chance(R(key, 11), 50), i4 |-> Chance(R(key, 13), 50), m |-> m]
   IN [id |-> "foreign/med/" \o ToString(k), fam |-> "foreign",
       ops |-> <<d, [op |-> "read", s |-> "b", f |-> "x.med", fid |-> d.fid, fmt |-> "med"]>>]

FlacTypes == <<"triangle", "tetra", "quad", "wedge", "hexahedron", "pyramid">>
\* a brick with seven corners: the last one counts twice
Seven(c) == [c EXCEPT ![7] = c[6]]
FlacFile(k) ==
   LET key == Mix(Mix(Seed, 21100 + k), 17)
       bin == k % 2 = 0
       np == PrimeAbove(9, SizeExtra(R(key, 12)))
       nb == 1 + (R(key, 3) % 5)
       types == [i \in 1..nb |-> FlacTypes[((R(key, 9) + (5 + 2 * (R(key, 16) % 2)) * i) % 6) + 1]]
       b0 == [i \in 1..nb |-> MkBlock(types[i], "i8", NCells(R(key, 40 + i)), np, R(key, 30 + i))]
       blocks == [b \in 1..nb |-> IF b0[b].t # "hexahedron" THEN b0[b]
                    ELSE [b0[b] EXCEPT !.c = [i \in DOMAIN @ |-> IF R(key, 500 + i) % 3 = 0 THEN Seven(@[i]) ELSE @[i]]]]
       off(b) == SumSeq([q \in 1..(b - 1) |-> Len(blocks[q].c)])
       flat == FlattenSeq([b \in 1..nb |-> [i \in DOMAIN blocks[b].c |-> [x |-> off(b) + i - 1, z |-> TopDim(blocks[b].t) = 3]]])
       gn == <<"Region 2", "a", "b-c.d", "a">>
       gs == <<"1", "Default", "5", "Geo">>
       \* no two groups with the same name and slot
       group(i) == LET z == R(key, 60 + i) % 2 = 0 own == SelectSeq(flat, LAMBDA c : c.z = z)
                   IN [n |-> (IF z THEN "zone:" ELSE "face:") \o gn[i] \o ":" \o gs[((R(key, 70) + i) % 4) + 1], z |-> z, name |-> gn[i], slot |-> gs[((R(key, 70) + i) % 4) + 1],
                       s |-> LET some == SelectSeq(own, LAMBDA c : R(key, 80 + 7 * c.x + i) % 2 = 0) IN [j \in DOMAIN some |-> some[j].x]]
       fs == SelectSeq([i \in 1..(R(key, 4) % 5) |-> group(i)], LAMBDA g : g.s # <<>>)
       m == [fs |-> fs, sg |-> [b \in 1..nb |-> [i \in DOMAIN blocks[b].c |-> 1]]] @@ [Blank EXCEPT !.pts = [i \in 1..np |-> i + (R(key, 23) % 500)], !.blocks = blocks]
       d == [op |-> "foreign", kind |-> "flac3d", f |-> "x.f3grid", fid |-> IF bin THEN "flac3d-bin" ELSE "flac3d-asc", bin |-> bin, step |-> 1 + (R(key, 5) % 4), from |-> 1 + 10 * (R(key, 6) % 3),
             mixed |-> Chance(R(key, 7), 40), note |-> Chance(R(key, 8), 50), quote |-> R(key, 10) % 2, wide |-> 1 + (R(key, 11) % 9), turn |-> Chance(R(key, 13), 50), m |-> m]
   IN [id |-> "foreign/flac3d/" \o (IF bin THEN "binary" ELSE "ascii") \o "/" \o ToString(k), fam |-> "foreign",
       ops |-> <<d, [op |-> "read", s |-> "b", f |-> "x.f3grid", fid |-> d.fid, fmt |-> "flac3d"]>>]

\* ---- small formats --------------------------------------------------------------
Labels(blocks, L(_)) == [b \in DOMAIN blocks |-> [i \in DOMAIN blocks[b].c |-> L(b)]]
Su2File(k) ==
   LET key == Mix(Mix(Seed, 22100 + k), 17)
       dim == IF Chance(R(key, 2), 40) THEN 2 ELSE 3
       np == PrimeAbove(8, SizeExtra(R(key, 12)))
       it == IF dim = 2 THEN <<"triangle", "quad">> ELSE <<"tetra", "hexahedron", "wedge", "pyramid">>
       bt == IF dim = 2 THEN <<"line">> ELSE <<"triangle", "quad">>
       ni == 1 + (R(key, 3) % Len(it))
       nm == R(key, 4) % 4
       inner == [i \in 1..ni |-> MkBlock(it[((R(key, 9) + i) % Len(it)) + 1], "i8", NCells(R(key, 40 + i)), np, R(key, 30 + i))]
       edge(i) == [j \in 1..(R(key, 60 + i) % (Len(bt) + 2)) |-> MkBlock(bt[((R(key, 70 + i) + j) % Len(bt)) + 1], "i8", NCells(R(key, 80 + 5 * i + j)), np, R(key, 90 + 5 * i + j))]
       tag(i) == Pick(<<7, 3, 12, 1>>, i) + 20 * (R(key, 5) % 3)
       marks == [i \in 1..nm |-> [tag |-> tag(i), first |-> ni + SumSeq([q \in 1..(i - 1) |-> Len(edge(q))]) + 1, n |-> Len(edge(i))]]
       blocks == inner \o FlattenSeq([i \in 1..nm |-> edge(i)])
       L(b) == IF b <= ni THEN 0 ELSE (CHOOSE q \in RangeOf(marks) : b >= q.first /\ b < q.first + q.n).tag
       m == [Blank EXCEPT !.dim = dim, !.pts = [i \in 1..np |-> i + (R(key, 23) % 500)], !.blocks = blocks,
                          !.cd = <<[n |-> "su2:tag", nc |-> 0, dt |-> "i8", r |-> Labels(blocks, L)]>>]
       d == [op |-> "foreign", kind |-> "su2", f |-> "x.su2", fid |-> "su2", marks |-> marks, inner |-> ni, pcol |-> R(key, 6) % 3, ecol |-> Chance(R(key, 7), 50), bcol |-> Chance(R(key, 8), 30),
             mix |-> Chance(R(key, 10), 60), order |-> R(key, 11) % 4, note |-> Chance(R(key, 13), 50), two |-> Chance(R(key, 14), 30), m |-> m]
   IN [id |-> "foreign/su2/" \o ToString(k), fam |-> "foreign", ops |-> <<d, [op |-> "read", s |-> "b", f |-> "x.su2", fid |-> d.fid, fmt |-> "su2"]>>]
TetFile(k) ==
   LET key == Mix(Mix(Seed, 23100 + k), 17)
       np == PrimeAbove(5, SizeExtra(R(key, 12)))
       mark == Chance(R(key, 3), 60)
       na == IF mark THEN R(key, 4) % 4 ELSE 0
       nc == R(key, 5) % 4
       c == NCells(R(key, 40)) + (R(key, 6) % 4)
       W(v) == Pick(<<0, 1, 2, -3, 255, 7>>, v)
       m == [Blank EXCEPT !.pts = [i \in 1..np |-> i + (R(key, 23) % 500)], !.blocks = <<MkBlock("tetra", "i8", c, np, R(key, 30))>>,
               !.pd = (IF mark THEN <<[n |-> "tetgen:ref", nc |-> 0, dt |-> "i8", r |-> [i \in 1..np |-> W(R(key, 500 + i))]]>> ELSE <<>>)
                      \o [i \in 1..na |-> [n |-> "tetgen:attr" \o ToString(i), nc |-> 0, dt |-> "f8", r |-> MkRows(np, 0, "f8", R(key, 50 + i), i)]],
               !.cd = [i \in 1..nc |-> [n |-> IF i = 1 THEN "tetgen:ref" ELSE "tetgen:ref" \o ToString(i), nc |-> 0, dt |-> IF i = 2 THEN "f8" ELSE "i8",
                         r |-> <<IF i = 2 THEN MkRows(c, 0, "f8", R(key, 60), 9) ELSE [j \in 1..c |-> W(R(key, 600 + 40 * i + j))]>>]]]
       d == [op |-> "foreign", kind |-> "tetgen", f |-> IF k % 2 = 0 THEN "x.node" ELSE "x.ele", fid |-> "tetgen", base |-> R(key, 7) % 2, ebase |-> R(key, 8) % 3, note |-> R(key, 10) % 4,
             wide |-> Chance(R(key, 11), 50), m |-> m]
   IN [id |-> "foreign/tetgen/" \o ToString(k), fam |-> "foreign", ops |-> <<d, [op |-> "read", s |-> "b", f |-> d.f, fid |-> d.fid, fmt |-> "tetgen"]>>]
StlFile(k) ==
   LET key == Mix(Mix(Seed, 24100 + k), 17)
       np == PrimeAbove(5, SizeExtra(R(key, 12)))
       d == [op |-> "foreign", kind |-> "stl", f |-> "x.stl", fid |-> "stl-bin", head |-> Pick(<<"solid made by another program", "", "COLOR=rgba", "solid">>, R(key, 3)), attr |-> Pick(<<0, 1, 32768, 65535>>, R(key, 4)),
             zero |-> Chance(R(key, 5), 40),
             m |-> [Blank EXCEPT !.pts = [i \in 1..np |-> i + (R(key, 23) % 500)], !.pdt = "f4", !.blocks = <<MkBlock("triangle", "i8", NCells(R(key, 40)) + (R(key, 6) % 9), np, R(key, 30))>>]]
   IN [id |-> "foreign/stl/" \o ToString(k), fam |-> "foreign", ops |-> <<d, [op |-> "read", s |-> "b", f |-> d.f, fid |-> d.fid, fmt |-> "stl"]>>]
ObjFile(k) ==
   LET key == Mix(Mix(Seed, 25100 + k), 17)
       np == PrimeAbove(6, SizeExtra(R(key, 12)))
       nb == 1 + (R(key, 3) % 5)
       nn == [i \in 1..nb |-> Pick(<<3, 4, 3, 5, 4>>, R(key, 50 + i))]
       blocks == [i \in 1..nb |->
          [t |-> CASE nn[i] = 3 -> "triangle" [] nn[i] = 4 -> "quad" [] OTHER -> "polygon", dt |-> "i8",
           c |-> [c \in 1..NCells(R(key, 40 + i)) |-> LET s == R(key, 60 + i) + c st == 1 + (R(key, 70 + i + c) % (np - 1)) IN [q \in 1..nn[i] |-> (s + q * st) % np]]]]
       \* a group statement before block b?  (some are repeated: a group without faces)
       gs == [b \in 1..nb |-> Pick(<<0, 1, 1, 2, 0>>, R(key, 80 + b))]
       og == FlattenSeq([b \in 1..nb |-> [i \in DOMAIN blocks[b].c |-> SumSeq([q \in 1..b |-> gs[q]]) - 1]])
       d == [op |-> "foreign", kind |-> "obj", f |-> "x.obj", fid |-> "obj", gs |-> gs, inter |-> Chance(R(key, 4), 50), neg |-> Chance(R(key, 5), 40), refs |-> R(key, 6) % 4,
             nt |-> Pick(<<0, 3, np, 17>>, R(key, 7)), nn |-> Pick(<<0, 2, np, 13>>, R(key, 8)), w |-> Chance(R(key, 10), 25), note |-> Chance(R(key, 11), 50),
             m |-> [og |-> og] @@ [Blank EXCEPT !.pts = [i \in 1..np |-> i + (R(key, 23) % 500)], !.blocks = blocks]]
   IN [id |-> "foreign/obj/" \o ToString(k), fam |-> "foreign", ops |-> <<d, [op |-> "read", s |-> "b", f |-> d.f, fid |-> d.fid, fmt |-> "obj"]>>]
\* ANSYS: sections of cells, of faces of one kind, and of faces of both kinds
AnsFile(k) ==
   LET key == Mix(Mix(Seed, 26100 + k), 17)
       np == PrimeAbove(8, SizeExtra(R(key, 12)))
       enc == Pick(<<"", "20", "30", "">>, k)
       ns == 1 + (R(key, 3) % 4)
       kind == [i \in 1..ns |-> LET r == Pick(<<"cells", "faces", "mixed">>, R(key, 20 + i)) IN IF r = "mixed" /\ enc # "" THEN "faces" ELSE r]
       blk(t, q) == MkBlock(t, "i8", NCells(R(key, 40 + q)), np, R(key, 60 + q))
       of(i) == CASE kind[i] = "cells" -> <<blk(Pick(<<"triangle", "tetra", "quad", "hexahedron", "pyramid", "wedge">>, R(key, 80 + i)), 3 * i)>>
                  [] kind[i] = "faces" -> <<blk(Pick(<<"triangle", "quad">>, R(key, 80 + i)), 3 * i)>>
                  [] OTHER -> IF R(key, 80 + i) % 2 = 0 THEN <<blk("triangle", 3 * i), blk("quad", 3 * i + 1)>> ELSE <<blk("quad", 3 * i), blk("triangle", 3 * i + 1)>>
       parts == [i \in 1..ns |-> of(i)]
       d == [op |-> "foreign", kind |-> "ansys", f |-> "x.msh", fid |-> IF enc = "" THEN "ansys-asc" ELSE "ansys-bin", enc |-> enc, parts |-> [i \in 1..ns |-> [k |-> kind[i], n |-> Len(parts[i])]],
             zones |-> 1 + (R(key, 4) % 3), from |-> Pick(<<1, 1, 5, 20>>, R(key, 5)), own |-> R(key, 6) % 4, note |-> Chance(R(key, 7), 60), decl |-> Chance(R(key, 8), 60), dead |-> Chance(R(key, 10), 30),
             late |-> Chance(R(key, 11), 30),
             m |-> [Blank EXCEPT !.pdt = IF enc = "20" THEN "f4" ELSE "f8", !.dim = IF Chance(R(key, 13), 25) THEN 2 ELSE 3, !.pts = [i \in 1..np |-> i + (R(key, 23) % 500)], !.blocks = FlattenSeq(parts)]]
   IN [id |-> "foreign/ansys/" \o (IF enc = "" THEN "ascii" ELSE enc) \o "/" \o ToString(k), fam |-> "foreign", ops |-> <<d, [op |-> "read", s |-> "b", f |-> d.f, fid |-> d.fid, fmt |-> "ansys"]>>]
SmallFile(k) == CASE k % 5 = 0 -> Su2File(k \div 5) [] k % 5 = 1 -> TetFile(k \div 5) [] k % 5 = 2 -> StlFile(k \div 5) [] k % 5 = 3 -> AnsFile(k \div 5) [] OTHER -> ObjFile(k \div 5)

File(k) == CASE k % 8 = 5 -> (LET q == k \div 8 IN CASE q % 3 = 0 -> NasFile(q \div 3) [] q % 3 = 1 -> AbqFile(q \div 3) [] OTHER -> GmFile(q \div 3))
   []  k % 8 = 4 -> (LET q == k \div 8 IN CASE q % 5 = 0 -> ExoFile(q \div 5) [] q % 5 = 1 -> MeditFile(q \div 5) [] q % 5 = 2 -> MedFile(q \div 5) [] q % 5 = 3 -> FlacFile(q \div 5) [] OTHER -> TecFile(q \div 5))
   []  k % 16 = 1 -> SmallFile(k \div 16)
   []  k % 8 \in {0, 1} -> VtuFile(k \div 8) [] k % 8 = 2 -> XdmfFile(k \div 8) [] k % 8 = 3 -> PlyFile(k \div 8) [] k % 8 = 6 -> GmFile(5000 + (k \div 8)) [] OTHER -> VtkFile(k)
Mine == SelectSeq([k \in 1..NRand |-> k], LAMBDA k : k % NShards = Shard)
Cases == [j \in DOMAIN Mine |-> File(Mine[j])]
ASSUME ndJsonSerialize(Out, Cases)
ASSUME PrintT(<<"GENERATED", Len(Cases)>>)
=============================================================================
