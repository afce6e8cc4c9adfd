-------------------------------- MODULE Foreign -------------------------------
(***************************************************************************)
(* Files of other programs: what they mean.  An event "foreign" puts a     *)
(* file on disk that the library would not write itself, described by a    *)
(* record d; FileMeaning(d) is the mesh it holds.                              *)
(***************************************************************************)
EXTENDS Vary

\* ---- structured grids: points x fastest, cells likewise ---------------------
\* dims: points per direction; directions with one point do not count
Live(dims) == SelectSeq(<<1, 2, 3>>, LAMBDA a : dims[a] > 1)
Points3(dims) == dims[1] * dims[2] * dims[3]
\* the lattice token of the q-th (0-based) point
Token(dims, q) == LET i == q % dims[1] j == (q \div dims[1]) % dims[2] k == q \div (dims[1] * dims[2])
                  IN 1 + i + 40 * j + 1600 * k
LatticePoints(dims) == [q \in 1..Points3(dims) |-> Token(dims, q - 1)]
GridType(dims) == CASE Len(Live(dims)) = 1 -> "line" [] Len(Live(dims)) = 2 -> "quad" [] OTHER -> "hexahedron"
NCellsOf(dims) == LET a == Live(dims) IN
   CASE Len(a) = 1 -> dims[a[1]] - 1
     [] Len(a) = 2 -> (dims[a[1]] - 1) * (dims[a[2]] - 1)
     [] OTHER -> (dims[1] - 1) * (dims[2] - 1) * (dims[3] - 1)
GridCell(dims, q) ==
   LET a == Live(dims)
       m(i) == dims[a[i]] - 1                  \* cells along the i-th live direction
       n(i) == dims[a[i]]
   IN CASE Len(a) = 1 -> <<q, q + 1>>
        [] Len(a) = 2 -> LET p == (q % m(1)) + n(1) * (q \div m(1)) IN <<p, p + 1, p + 1 + n(1), p + n(1)>>
        [] OTHER -> LET p == (q % m(1)) + n(1) * ((q \div m(1)) % m(2)) + n(1) * n(2) * (q \div (m(1) * m(2)))
                        u == n(1) * n(2)
                    IN <<p, p + 1, p + 1 + n(1), p + n(1), p + u, p + u + 1, p + u + 1 + n(1), p + u + n(1)>>
GridCells(dims) == [q \in 1..NCellsOf(dims) |-> GridCell(dims, q - 1)]

Structured == {"STRUCTURED_POINTS", "RECTILINEAR_GRID", "STRUCTURED_GRID"}
\* VTK looks at a wedge from the other side
VtkNodes(t, c) == IF t = "wedge" THEN <<c[1], c[3], c[2], c[4], c[6], c[5]>> ELSE c
\* several pieces: one after the other, node numbers moved
Cat(ms) ==
   LET off(p) == SumSeq([q \in 1..(p - 1) |-> Len(ms[q].pts)])
       all(g(_)) == FlattenSeq([p \in DOMAIN ms |-> g(p)])
       moved(p) == [b \in DOMAIN ms[p].blocks |->
          [ms[p].blocks[b] EXCEPT !.c = [i \in DOMAIN @ |-> [q \in DOMAIN @[i] |-> VtkNodes(ms[p].blocks[b].t, @[i])[q] + off(p)]]]]
       pts(p) == ms[p].pts
   IN [ms[1] EXCEPT !.pts = all(pts), !.blocks = all(moved),
         !.pd = [a \in DOMAIN ms[1].pd |-> [ms[1].pd[a] EXCEPT !.r = FlattenSeq([p \in DOMAIN ms |-> ms[p].pd[a].r])]],
         !.cd = [a \in DOMAIN ms[1].cd |-> [ms[1].cd[a] EXCEPT !.r = FlattenSeq([p \in DOMAIN ms |-> ms[p].cd[a].r])]]]
\* Nastran: the upright edges come before the upper ones
NasNodes(t, c) ==
   CASE t = "hexahedron20" -> SubSeq(c, 1, 12) \o SubSeq(c, 17, 20) \o SubSeq(c, 13, 16)
     [] t = "wedge15" -> SubSeq(c, 1, 9) \o SubSeq(c, 13, 15) \o SubSeq(c, 10, 12)
     [] OTHER -> c
\* Abaqus: the statements of the file add to the sets, one after the other
AbqAdd(sets, n, m) ==
   IF Has(sets, n) THEN [i \in DOMAIN sets |-> IF sets[i].n = n THEN [sets[i] EXCEPT !.m = @ \cup m] ELSE sets[i]] ELSE Append(sets, [n |-> n, m |-> m])
AbqMembers(sets, s) ==
   RangeOf(s.ids) \cup UNION {{g[1] + g[3] * (j - 1) : j \in 1..g[2]} : g \in RangeOf(s.gen)} \cup UNION {Get(sets, x).m : x \in RangeOf(s.refs)}
AbqAll(sets, stats) == FoldLeft(LAMBDA a, s : AbqAdd(a, s.n, AbqMembers(a, s)), sets, stats)
AbqMeaning(d) ==
   LET m == d.m
       off(b) == SumSeq([q \in 1..(b - 1) |-> Len(m.blocks[q].c)])
       n0 == IF d.nset = "" THEN <<>> ELSE <<[n |-> d.nset, m |-> 0..(Len(m.pts) - 1)]>>
       e0 == FoldLeft(LAMBDA a, b : IF d.eset[b] = "" THEN a ELSE AbqAdd(a, d.eset[b], {off(b) + i - 1 : i \in DOMAIN m.blocks[b].c}), <<>>, [b \in DOMAIN m.blocks |-> b])
       ps == AbqAll(n0, SelectSeq(d.stats, LAMBDA s : s.k = "n"))
       cs == AbqAll(e0, SelectSeq(d.stats, LAMBDA s : s.k = "e"))
   IN [m EXCEPT !.ps = [i \in DOMAIN ps |-> [n |-> ps[i].n, m |-> SetToSortSeq(ps[i].m, <)]],
                !.cs = [i \in DOMAIN cs |-> [n |-> cs[i].n, m |-> [b \in DOMAIN m.blocks |->
                           SetToSortSeq({x - off(b) : x \in {y \in cs[i].m : y >= off(b) /\ y < off(b) + Len(m.blocks[b].c)}}, <)]]]]
\* Gmsh 4.1: a named group has the cells of all entities that belong to it
GmSets(d) ==
   LET m == d.m
       off(b) == SumSeq([q \in 1..(b - 1) |-> Len(m.blocks[q].c)])
   IN [i \in DOMAIN m.fd |-> UNION {{off(b) + c - 1 : c \in DOMAIN m.blocks[b].c} :
          b \in {b \in DOMAIN m.blocks : d.ent /\ m.fd[i].v[1] \in RangeOf(d.groups[b]) /\ m.fd[i].v[2] = TopDim(m.blocks[b].t)}}]
FileMeaning(d) ==
   IF d.kind = "gmsh" THEN [gs |-> GmSets(d)] @@ d.m ELSE
   IF d.kind = "nastran" THEN [d.m EXCEPT !.blocks = [b \in DOMAIN @ |-> [@[b] EXCEPT !.c = [i \in DOMAIN @ |-> NasNodes(d.m.blocks[b].t, @[i])]]]] ELSE
   IF d.kind = "abaqus" THEN AbqMeaning(d) ELSE
   IF d.kind = "vtk" /\ d.ds \in Structured
   THEN [d.m EXCEPT !.pts = IF d.ds = "STRUCTURED_GRID" THEN d.m.pts ELSE LatticePoints(d.dims),
                    !.blocks = <<[t |-> GridType(d.dims), dt |-> "i8", c |-> GridCells(d.dims)]>>]
   ELSE IF d.kind = "vtk"
   THEN [d.m EXCEPT !.blocks = [b \in DOMAIN d.m.blocks |-> [d.m.blocks[b] EXCEPT !.c = [i \in DOMAIN @ |-> VtkNodes(d.m.blocks[b].t, @[i])]]]]
   ELSE IF d.kind = "vtu" THEN Cat(d.m.pieces)
   ELSE d.m

ForeignNext(fs, e) ==
   IF e.res.st # "ok" THEN fs
   ELSE (e.f :> [fid |-> e.fid, m |-> FileMeaning(e), old |-> {}, state |-> "good", seen |-> None, seenas |-> ""]) @@ fs
ForeignVerdict(e) == If(e.res.st = "ok", "foreign.broken")
=============================================================================
