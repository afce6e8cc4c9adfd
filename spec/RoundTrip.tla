------------------------------ MODULE RoundTrip ------------------------------
(***************************************************************************)
(* The promise of a write followed by a read, clause by clause.            *)
(* RT(F, m, o) is the set of names of the clauses that the observed mesh o *)
(* breaks, o having been read from a file in which m was stored with F.    *)
(* Names start with the aspect: geo, data, tag, set.                       *)
(***************************************************************************)
EXTENDS Formats

If(b, s) == IF b THEN {} ELSE {s}

\* ---- geometry ----------------------------------------------------------
\* digits left when numbers known to d digits go through something that keeps b of them
Through(b, d) == IF d >= 17 THEN b ELSE Min2(b, d) - 1
PtDig(F, m) == LET b == IF m.pdt = "f4" THEN Min2(F.pdig, 6) ELSE F.pdig
               IN IF "pdig" \in DOMAIN m THEN Through(b, m.pdig) ELSE b

SoupTriples(m, cells) == [i \in DOMAIN cells |-> [j \in DOMAIN cells[i].c |-> m.pts[cells[i].c[j] + 1]]]

GeoSoup(F, m, o) ==
   LET e == SoupTriples(m, ExpCells(F, m))
       oc == FlatCells(o)
       g == SoupTriples(o, oc)
   IN If([i \in DOMAIN oc |-> oc[i].t] = [i \in DOMAIN e |-> ExpCells(F, m)[i].t], "geo.cells.type")
      \cup If(Len(e) = Len(g), "geo.cells.count")
      \cup If(e = g, "geo.cells.corners")
      \cup If(o.pdig >= PtDig(F, m), "geo.points.digits")

\* the comparison key: everything in cell order, or per type
Arrange(F, cells, key) == IF F.ord = "seq" /\ \A i \in DOMAIN cells : cells[i].t \notin HedraTypes THEN key
   ELSE ByType([i \in DOMAIN cells |-> IF cells[i].t # "polygon" THEN cells[i] ELSE [t |-> "polygon" \o ToString(Len(cells[i].c))]], key)

GeoGrid(F, m, o) ==
   LET po  == PointOrder(F, m)                    \* po[i] = source index of the i-th point in the file
       inv == [s \in DOMAIN m.pts |-> CHOOSE i \in DOMAIN po : po[i] = s]
       perm == F.shape = "gmsh41" /\ Has(m.pd, "gmsh:dim_tags")
       ec0 == ExpCells(F, m)
       ec  == IF ~perm THEN ec0
              ELSE [i \in DOMAIN ec0 |-> [ec0[i] EXCEPT !.c = [j \in DOMAIN ec0[i].c |-> inv[ec0[i].c[j] + 1] - 1]]]
       oc  == Settle(F, m, FlatCells(o))
       ep  == [i \in DOMAIN po |-> m.pts[po[i]]]
   IN If(Len(o.pts) = Len(m.pts), "geo.points.count")
      \cup If(o.pts = ep, "geo.points.values")
      \cup If((m.dim = 2 /\ F.d2 = "no") \/ o.dim = (IF m.dim = 2 /\ F.d2 = "keep" THEN 2 ELSE 3), "geo.points.dim")
      \cup If(o.pdig >= PtDig(F, m), "geo.points.digits")
      \cup If(Len(oc) = Len(ec), "geo.cells.count")
      \cup If({ec[i].t : i \in DOMAIN ec} = {oc[i].t : i \in DOMAIN oc}, "geo.cells.types")
      \cup If(Arrange(F, ec, [i \in DOMAIN ec |-> ec[i].c]) = Arrange(F, oc, [i \in DOMAIN oc |-> oc[i].c]),
              "geo.cells.nodes")
      \cup If(F.ord # "seq" \/ TypesOf(m) \cap HedraTypes # {} \/ [i \in DOMAIN ec |-> ec[i].t] = [i \in DOMAIN oc |-> oc[i].t], "geo.cells.order")

Geo(F, m, o) == IF F.shape = "soup" THEN GeoSoup(F, m, o) ELSE GeoGrid(F, m, o)


\* ---- data --------------------------------------------------------------
(* Arrays that a variant stores as its one label per entity, or whose name *)
(* has a meaning of its own, are labels and are dealt with below.          *)
TagNames == {"gmsh:physical", "gmsh:geometrical", "cell_tags", "point_tags", "gmsh:dim_tags",
             "nastran:ref", "medit:ref", "avsucd:material", "netgen:index", "ugrid:ref", "su2:tag",
             "tetgen:ref", "GLOBAL_ID", "cell_ids", "facet_normals", "obj:group_ids"}

\* the array that becomes the label: the first integer one (Netgen: its own first)
CellLabel(F, m) ==
   IF F.cref = "" THEN ""
   ELSE IF F.fmt = "netgen" /\ Has(m.cd, "netgen:index") THEN "netgen:index"
   ELSE IF IntArrays(m.cd) = <<>> THEN "" ELSE IntArrays(m.cd)[1].n
PointLabel(F, m) ==
   IF F.pref = "" \/ IntArrays(m.pd) = <<>> THEN "" ELSE IntArrays(m.pd)[1].n

PlainPd(F, m) == SelectSeq(m.pd, LAMBDA d : d.n \notin TagNames /\ d.n # PointLabel(F, m)
                                 /\ NcOK(F, F.pnc, d.nc) /\ d.dt \in F.pdts /\ (F.sp \/ d.n \notin SpacyNames))
PlainCd(F, m) == SelectSeq(m.cd, LAMBDA d : d.n \notin TagNames /\ d.n # CellLabel(F, m)
                                 /\ NcOK(F, F.cnc, d.nc) /\ d.dt \in F.cdts /\ (F.sp \/ d.n \notin SpacyNames))

ExpNc(F, d) == IF F.pad3 /\ d.nc = 2 THEN 3 ELSE NC(d.nc)

\* VTK and VTU store sets as one integer array named after the sets
\* (joined by the first of these characters that occurs in none of them)
RECURSIVE JoinBy(_, _, _)
JoinBy(s, i, c) == IF i = Len(s) THEN s[i].n ELSE s[i].n \o c \o JoinBy(s, i + 1, c)
PlainSets(s) == Names(s) \cap (SpacyNames \cup {"top 1", "gmsh:bounding_entities"}) = {}
JoinedNames(s) == {JoinBy(s, 1, c) : c \in {"-", "_", "#", "+", "/"}}
SetArrayNames(F, s) == IF F.setmode = "data" /\ Len(s) > 0 THEN JoinedNames(s) ELSE {}
\* the name under which the array of the sets is found among the arrays d
JoinNames(s, d) == IF \E n \in JoinedNames(s) : Has(d, n) THEN CHOOSE n \in JoinedNames(s) : Has(d, n) ELSE JoinBy(s, 1, "-")

DataClauses(F, pre, d, exp, got, g) ==
   If(exp = got, pre \o ".rows")
   \cup If(NC(g.nc) = ExpNc(F, d) \/ g.r = <<>>, pre \o ".components")
   \cup If(g.dig >= DataDig(F, d), pre \o ".digits")
   \cup If(~F.keepdt \/ g.dt = d.dt \/ g.dt = "", pre \o ".dtype")

PointData(F, m, o) ==
   IF F.pnc = {} THEN {} ELSE
   LET po == PointOrder(F, m)
       P  == PlainPd(F, m)
   IN UNION {
        LET d == P[i] IN
        IF ~Has(o.pd, d.n) THEN {"data.point.missing"}
        ELSE LET g == Get(o.pd, d.n)
             IN DataClauses(F, "data.point", d, [k \in DOMAIN po |-> d.r[po[k]]], g.r, g)
        : i \in DOMAIN P}
      \cup If(~DataOK(F, m) \/ (F.setmode = "data" /\ ~PlainSets(m.ps)) \/ Names(o.pd) \subseteq (Names(m.pd) \cup F.xpd \cup SetArrayNames(F, m.ps)), "data.point.spurious")

CellData(F, m, o) ==
   IF F.cnc = {} THEN {} ELSE
   LET k  == KeptMesh(F, m)
       ec == ExpCells(F, m)
       oc == FlatCells(o)
       P  == PlainCd(F, k)
   IN UNION {
        LET d == P[i] IN
        IF ~Has(o.cd, d.n) THEN {"data.cell.missing"}
        ELSE LET g == Get(o.cd, d.n)
                 gr == FlatRows(g)
             IN IF Len(gr) # Len(oc) THEN {"data.cell.rows"}
                ELSE DataClauses(F, "data.cell", d, Arrange(F, ec, FlatRows(d)), Arrange(F, oc, gr), g)
        : i \in DOMAIN P}
      \cup If(~DataOK(F, m) \/ (F.setmode = "data" /\ ~PlainSets(m.cs)) \/ Names(o.cd) \subseteq (Names(m.cd) \cup F.xcd \cup SetArrayNames(F, m.cs)), "data.cell.spurious")

\* ---- labels ------------------------------------------------------------
Scoped(F, m, t) ==
   CASE F.fmt = "ugrid" -> t \in {"triangle", "quad"}
     [] OTHER -> TRUE

ExpLabel(F, k) ==          \* flattened labels expected for the kept mesh k
   LET l == CellLabel(F, k)
   IN IF l = "" THEN [i \in 1..NumCells(k) |-> F.cdef] ELSE FlatRows(Get(k.cd, l))

\* Gmsh 4.1 labels entities, not cells: one block, one entity
EntityLabels(k) ==
   /\ Has(k.pd, "gmsh:dim_tags") /\ Has(k.cd, "gmsh:geometrical")
   /\ LET g == Get(k.cd, "gmsh:geometrical").r
          ent(b) == <<TopDim(k.blocks[b].t), g[b]>>
      IN /\ \A n \in {"gmsh:geometrical", "gmsh:physical"} : Has(k.cd, n) =>
               \A b \in DOMAIN k.blocks : Cardinality(RangeOf(Get(k.cd, n).r[b])) <= 1
         /\ \A b, c \in DOMAIN k.blocks : ent(b) = ent(c) => b = c
         /\ \A b \in DOMAIN k.blocks : g[b] # <<>> => (TopDim(k.blocks[b].t) * 1000 + g[b][1]) \in RangeOf(Get(k.pd, "gmsh:dim_tags").r)
CellTags(F, m, o) ==
   LET k  == KeptMesh(F, m)
       ec == ExpCells(F, m)
       oc == FlatCells(o)
   IN
   (IF F.cref = "" THEN {} ELSE
      IF ~Has(o.cd, F.cref) THEN {"tag.cell.missing"}
      ELSE LET g == FlatRows(Get(o.cd, F.cref))
               ex == ByType(ec, ExpLabel(F, k))
               gt == ByType(oc, g)
           IN IF Len(g) # Len(oc) THEN {"tag.cell.rows"}
              ELSE If(\A t \in DOMAIN ex : ~Scoped(F, m, t) \/ (t \in DOMAIN gt /\ gt[t] = ex[t]), "tag.cell.values"))
   \cup
   (IF F.fmt \notin {"gmsh22", "gmsh", "nastran"} THEN {} ELSE
      UNION { IF ~Has(k.cd, n) THEN {} ELSE
              IF ~Has(o.cd, n) THEN {"tag.cell.missing"} ELSE
              If(Arrange(F, ec, FlatRows(Get(k.cd, n))) = FlatRows(Get(o.cd, n)), "tag.cell.values")
              : n \in IF F.fmt = "nastran" THEN {"nastran:ref"}
                      ELSE IF F.via = "gmsh40" THEN {}
                      ELSE IF F.fmt = "gmsh" /\ "gs" \notin DOMAIN m /\ ~EntityLabels(k) THEN {} ELSE {"gmsh:physical", "gmsh:geometrical"}})
   \cup
   (IF F.fmt # "med" \/ ~Has(k.cd, "cell_tags") THEN {} ELSE
      IF ~Has(o.cd, "cell_tags") THEN {"tag.cell.missing"} ELSE
      If(Len(FlatRows(Get(o.cd, "cell_tags"))) = Len(oc) /\
         Arrange(F, ec, FlatRows(Get(k.cd, "cell_tags"))) = Arrange(F, oc, FlatRows(Get(o.cd, "cell_tags"))), "tag.cell.values"))

PointTags(F, m, o) ==
   (IF F.pref = "" THEN {} ELSE
      IF ~Has(o.pd, F.pref) THEN {"tag.point.missing"}
      ELSE LET l == PointLabel(F, m)
           IN If(Get(o.pd, F.pref).r = (IF l = "" THEN [i \in DOMAIN m.pts |-> F.pdef] ELSE Get(m.pd, l).r), "tag.point.values"))
   \cup
   UNION { IF ~Has(m.pd, n) THEN {} ELSE
           IF ~Has(o.pd, n) THEN {"tag.point.missing"}
           ELSE LET po == PointOrder(F, m) r == Get(m.pd, n).r
                IN If(Get(o.pd, n).r = [i \in DOMAIN po |-> r[po[i]]], "tag.point.values")
           : n \in CASE F.fmt = "med" -> {"point_tags"} [] F.fmt = "nastran" -> {"nastran:ref"}
                     [] F.shape = "gmsh41" /\ F.via = "" -> {"gmsh:dim_tags"} [] OTHER -> {} }

\* TetGen: attributes and markers in column order
TetgenTags(F, m, o) ==
   IF F.shape # "tetgen" THEN {} ELSE
   LET k == KeptMesh(F, m)
       refP == SelectSeq(m.pd, LAMBDA d : d.n = "tetgen:ref")
       othP == SelectSeq(m.pd, LAMBDA d : d.n # "tetgen:ref")
       pcols == IF \E i \in DOMAIN m.pd : m.pd[i].nc # 0 THEN <<>> ELSE IF m.pd = <<>> THEN <<>>
                ELSE IF refP # <<>> THEN <<refP[1]>> \o othP ELSE m.pd    \* the first is the marker
       PName(i) == IF i = 1 THEN "tetgen:ref" ELSE "tetgen:attr" \o ToString(i - 1)
       refC == SelectSeq(k.cd, LAMBDA d : d.n = "tetgen:ref")
       othC == SelectSeq(k.cd, LAMBDA d : d.n # "tetgen:ref")
       ccols == IF \E i \in DOMAIN k.cd : k.cd[i].nc # 0 THEN <<>> ELSE refC \o othC
       CName(i) == IF i = 1 THEN "tetgen:ref" ELSE "tetgen:ref" \o ToString(i)
   IN UNION {IF ~Has(o.pd, PName(i)) THEN {"tag.point.missing"}
             ELSE If(Get(o.pd, PName(i)).r = pcols[i].r, "tag.point.values") : i \in DOMAIN pcols}
      \cup UNION {IF ~Has(o.cd, CName(i)) THEN {"tag.cell.missing"}
             ELSE If(FlatRows(Get(o.cd, CName(i))) = FlatRows(ccols[i]), "tag.cell.values") : i \in DOMAIN ccols}

\* SU2: markers group the boundary cells, so only (cell, label) pairs count
CountOf(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in RangeOf(a) : CountOf(a, x) = CountOf(b, x)
Su2Boundary(m, t) == IF m.dim = 2 THEN t = "line" ELSE t \in {"triangle", "quad"}
Su2Tags(F, m, o) ==
   IF F.shape # "su2" THEN {} ELSE
   LET k == KeptMesh(F, m)
       ec == ExpCells(F, m)
       ia == IntArrays(m.cd)
       lab == IF ia = <<>> THEN [i \in DOMAIN ec |-> 1] ELSE FlatRows(Get(k.cd, ia[1].n))
       oc == FlatCells(o)
       ol == FlatRows(Get(o.cd, "su2:tag"))
       pe == [i \in DOMAIN ec |-> <<ec[i].t, ec[i].c, IF Su2Boundary(m, ec[i].t) THEN lab[i] ELSE 0>>]
       pg == [i \in DOMAIN oc |-> <<oc[i].t, oc[i].c, ol[i]>>]
   IN IF ~Has(o.cd, "su2:tag") \/ Len(ol) # Len(oc) THEN {"tag.cell.missing"}
      ELSE If(SameBag(pe, pg), "tag.cell.values")
Su2Geo(F, m, o) ==
   LET ec == ExpCells(F, m)
       oc == FlatCells(o)
       I(c) == SelectSeq(c, LAMBDA x : ~Su2Boundary(m, x.t))
       B(c) == SelectSeq(c, LAMBDA x : Su2Boundary(m, x.t))
       ie == I(ec) io == I(oc)
   IN If(o.pts = m.pts, "geo.points.values") \cup If(o.dim = m.dim, "geo.points.dim")
      \cup If(o.pdig >= PtDig(F, m), "geo.points.digits")
      \cup If(Len(oc) = Len(ec), "geo.cells.count")
      \cup If(ByType(ie, [i \in DOMAIN ie |-> ie[i].c]) = ByType(io, [i \in DOMAIN io |-> io[i].c]), "geo.cells.nodes")
      \cup If(SameBag(B(ec), B(oc)), "geo.cells.nodes")

\* physical names etc.
\* Netgen: names of the regions of each dimension; where none are given, the writer makes some up
NetgenNames(F, m, o) ==
   LET ok(d) == Len(d.v) = 2 /\ d.v[1] >= 1 /\ d.v[2] \in 0..m.dim /\ d.n \notin SpacyNames
       named == SelectSeq(m.fd, ok)
       alone(i) == \A j \in DOMAIN named : j = i \/ named[j].v # named[i].v
   IN IF Len(named) # Len(m.fd) THEN {} ELSE
      UNION {IF ~alone(i) THEN {} ELSE IF ~Has(o.fd, named[i].n) THEN {"tag.field.missing"}
             ELSE If(Get(o.fd, named[i].n).v = named[i].v, "tag.field.values") : i \in DOMAIN named}
      \cup If(\A i \in DOMAIN o.fd : o.fd[i].n \in Names(m.fd) \/ \A j \in DOMAIN named : named[j].v[2] # o.fd[i].v[2], "tag.field.spurious")
      \cup If("ni" \notin DOMAIN m \/ ("ni" \in DOMAIN o /\ o.ni = m.ni), "tag.periodic")
FieldData(F, m, o) ==
   IF F.fmt = "netgen" THEN NetgenNames(F, m, o) ELSE
   IF F.fmt \notin {"gmsh", "gmsh22"} THEN {} ELSE
   UNION {IF Len(m.fd[i].v) # 2 THEN {} ELSE IF ~Has(o.fd, m.fd[i].n) THEN {"tag.field.missing"}
          ELSE If(Get(o.fd, m.fd[i].n).v = m.fd[i].v, "tag.field.values") : i \in DOMAIN m.fd}
   \cup If(Names(o.fd) \subseteq Names(m.fd), "tag.field.spurious")

\* MED: families of points and cells with the names of their groups
FamSet(s) == {<<s[i].i, s[i].n>> : i \in DOMAIN s}
Fams(m) == IF "mt" \in DOMAIN m THEN <<FamSet(m.mt.p), FamSet(m.mt.c)>> ELSE <<{}, {}>>
Families(F, m, o) == IF F.fmt # "med" THEN {} ELSE If(Fams(m) = Fams(o), "tag.families")

\* OBJ files of other programs: the number of the group each face is in
ObjGroups(F, m, o) ==
   IF "og" \notin DOMAIN m THEN {} ELSE IF ~Has(o.cd, "obj:group_ids") THEN {"tag.cell.missing"}
   ELSE If(FlatRows(Get(o.cd, "obj:group_ids")) = m.og, "tag.cell.values")

PairSet(g, Ren(_)) == {<<Ren(g.pairs[i][1]), Ren(g.pairs[i][2])>> : i \in DOMAIN g.pairs}
PeriodicKey(s, Ren(_)) == [i \in DOMAIN s |-> <<s[i].dim, s[i].s, s[i].m, s[i].aff, PairSet(s[i], Ren)>>]
Periodic(F, m, o) ==
   IF F.fmt \notin {"gmsh", "gmsh22"} \/ m.gp = <<>> THEN {} ELSE
   LET po == PointOrder(F, m)
       Ren(x) == (CHOOSE i \in DOMAIN po : po[i] = x + 1) - 1
   IN If(PeriodicKey(m.gp, Ren) = PeriodicKey(o.gp, LAMBDA x : x), "tag.periodic")

\* ---- sets --------------------------------------------------------------
PointSets(F, m, o) ==
   IF F.setmode \notin {"ps", "ps+cs"} THEN {} ELSE
   UNION {IF ~Has(o.ps, m.ps[i].n) THEN {"set.point.missing"}
          ELSE If(SameBag(Get(o.ps, m.ps[i].n).m, m.ps[i].m), "set.point.members") : i \in DOMAIN m.ps}
   \cup If(Names(o.ps) \subseteq Names(m.ps), "set.point.spurious")

\* members as <<type, rank within the type>>, so that regrouping by type does not matter
Ranked(cells, S) == {<<cells[x + 1].t, Cardinality({j \in 1..x : cells[j].t = cells[x + 1].t})>> : x \in S}
\* FLAC3D: a set becomes one group of zones and one of faces
FlacSlot(F) == IF F.kw.binary THEN "Default" ELSE "1"
FlacName(F, n, d) == (IF d = 3 THEN "zone:" ELSE "face:") \o n \o ":" \o FlacSlot(F)
FlacSets(F, m, o) ==
   LET k == KeptMesh(F, m)
       kc == FlatCells(k)
       oc == FlatCells(o)
       ds == {TopDim(t) : t \in TypesOf(k)}
   IN UNION {UNION {
        LET S == {x \in FlatSet(k, k.cs[i]) : TopDim(kc[x + 1].t) = d}
            n == FlacName(F, k.cs[i].n, d)
        IN IF ~Has(o.cs, n) THEN If(S = {}, "set.cell.missing")
           ELSE LET g == Get(o.cs, n)
             IN IF Len(g.m) # Len(o.blocks) THEN {"set.cell.shape"}
                ELSE LET G == FlatSet(o, g)
                     IN IF \E x \in G : x < 0 \/ x >= Len(oc) THEN {"set.cell.members"}
                        ELSE If(Ranked(kc, S) = Ranked(oc, G), "set.cell.members")
        : d \in ds} : i \in DOMAIN k.cs}
      \cup If(Names(o.cs) \subseteq {FlacName(F, n, d) : n \in Names(m.cs), d \in ds}, "set.cell.spurious")
\* groups of other programs' files: full names, members as places in the file
FlacGroups(F, m, o) ==
   LET kc == FlatCells(KeptMesh(F, m)) oc == FlatCells(o)
   IN UNION {LET x == m.fs[i] IN
        IF ~Has(o.cs, x.n) THEN {"set.cell.missing"}
        ELSE LET g == Get(o.cs, x.n)
             IN IF Len(g.m) # Len(o.blocks) THEN {"set.cell.shape"}
                ELSE LET G == FlatSet(o, g)
                     IN IF \E q \in G : q < 0 \/ q >= Len(oc) THEN {"set.cell.members"} ELSE If(Ranked(kc, RangeOf(x.s)) = Ranked(oc, G), "set.cell.members")
        : i \in DOMAIN m.fs} \cup If(Names(o.cs) = Names(m.fs), "set.cell.spurious")
CellSets(F, m, o) ==
   IF F.shape = "flac3d" /\ "fs" \in DOMAIN m THEN FlacGroups(F, m, o) ELSE
   IF F.setmode \notin {"cs", "ps+cs"} THEN {} ELSE
   IF F.shape = "flac3d" THEN FlacSets(F, m, o) ELSE
   LET k == KeptMesh(F, m)
       kc == FlatCells(k)
       oc == FlatCells(o)
   IN UNION {
        LET S == FlatSet(k, k.cs[i]) IN
        IF ~Has(o.cs, k.cs[i].n) THEN If(S = {}, "set.cell.missing")
        ELSE LET g == Get(o.cs, k.cs[i].n)
             IN IF Len(g.m) # Len(o.blocks) THEN {"set.cell.shape"}
                ELSE LET G == FlatSet(o, g)
                     IN IF \E x \in G : x < 0 \/ x >= Len(oc) THEN {"set.cell.members"}
                        ELSE If(Ranked(kc, S) = Ranked(oc, G), "set.cell.members")
        : i \in DOMAIN k.cs}
      \cup If(Names(o.cs) \subseteq Names(m.cs), "set.cell.spurious")

\* VTK/VTU: sets become integer data
SetIndex(s, x) ==   \* number of the set containing index x, or -1
   LET c == {i \in DOMAIN s : x \in s[i]} IN IF c = {} THEN -1 ELSE (CHOOSE i \in c : \A j \in c : j <= i) - 1
SetData(F, m, o) ==
   IF F.setmode # "data" THEN {} ELSE
   LET k == KeptMesh(F, m)
       ps == [i \in DOMAIN m.ps |-> RangeOf(m.ps[i].m)]
       cs == [i \in DOMAIN k.cs |-> FlatSet(k, k.cs[i])]
   IN (IF m.ps = <<>> \/ ~PlainSets(m.ps) THEN {} ELSE
        LET n == JoinNames(m.ps, o.pd) IN
        IF ~Has(o.pd, n) THEN {"set.point.missing"}
        ELSE If(Get(o.pd, n).r = [i \in DOMAIN m.pts |-> SetIndex(ps, i - 1)], "set.point.members"))
      \cup
      (IF k.cs = <<>> \/ ~PlainSets(k.cs) THEN {} ELSE
        LET n == JoinNames(k.cs, o.cd) IN
        IF ~Has(o.cd, n) THEN {"set.cell.missing"}
        ELSE If(FlatRows(Get(o.cd, n)) = [i \in 1..NumCells(k) |-> SetIndex(cs, i - 1)], "set.cell.members"))

\* Gmsh 4.1: every named physical group comes back as a cell set of its members
GmshSets(F, m, o) ==
   IF F.fmt # "gmsh" \/ F.via # "" \/ m.fd = <<>> THEN {} ELSE
   LET k == KeptMesh(F, m)
       kc == FlatCells(k)
       lab == IF Has(k.cd, "gmsh:physical") /\ Has(k.pd, "gmsh:dim_tags") THEN FlatRows(Get(k.cd, "gmsh:physical")) ELSE <<>>
   IN UNION {LET d == m.fd[i] IN
        IF Len(d.v) # 2 THEN {} ELSE IF ~Has(o.cs, d.n) THEN {"set.cell.missing"}
        ELSE LET g == Get(o.cs, d.n)
             IN IF Len(g.m) # Len(o.blocks) THEN {"set.cell.shape"}
                ELSE If(FlatSet(o, g) = IF "gs" \in DOMAIN m THEN m.gs[i] ELSE {x - 1 : x \in {y \in DOMAIN lab : lab[y] = d.v[1] /\ TopDim(kc[y].t) = d.v[2]}}, "set.cell.members")
        : i \in DOMAIN m.fd}

RT(F, m, o) ==
   (IF F.shape = "su2" THEN Su2Geo(F, m, o) ELSE Geo(F, m, o))
   \cup PointData(F, m, o) \cup CellData(F, m, o)
   \cup CellTags(F, m, o) \cup PointTags(F, m, o) \cup TetgenTags(F, m, o) \cup Su2Tags(F, m, o)
   \cup FieldData(F, m, o) \cup Periodic(F, m, o) \cup Families(F, m, o) \cup ObjGroups(F, m, o)
   \cup GmshSets(F, m, o) \cup PointSets(F, m, o) \cup CellSets(F, m, o) \cup SetData(F, m, o)

\* an observed mesh must itself be consistent
ObsConsistent(o) == If(Consistent(o), "obs.consistent")
=============================================================================
