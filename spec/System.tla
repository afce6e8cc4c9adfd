-------------------------------- MODULE System --------------------------------
(***************************************************************************)
(* The system as a state machine: meshes in memory, files on disk, and the *)
(* operations that move meshes between them.  Every operation is described *)
(* by (a) a verdict: the set of clauses of the specification an observed   *)
(* outcome breaks, and (b) the next state.  Outcomes are those the driver  *)
(* reports for the real library; the design model (Design.tla) feeds in    *)
(* the outcomes an ideal library would give.                               *)
(***************************************************************************)
EXTENDS RoundTrip

None == [none |-> TRUE]
IsNone(x) == "none" \in DOMAIN x

\* fs entries: [fid, m, state]; state "good" (completely written), "bad" (a failed write)
FileAt(fs, p) == IF p \in DOMAIN fs THEN fs[p] ELSE None
MeshIn(mem, s) == IF s \in DOMAIN mem THEN mem[s] ELSE None

\* ---- write -------------------------------------------------------------
WriteVerdict(mem, e) ==
   LET m == MeshIn(mem, e.s)
       F == Fid(e.fid)
       r == e.res
   IN IF IsNone(m) THEN {}
      ELSE If(\A x \in RangeOf(r.mut) : x \in {"point_data#padded", "cell_data#padded"}, "pure.mutated")
           \cup If(\A x \in RangeOf(r.mut) : x \notin {"point_data#padded", "cell_data#padded"}, "pure.padded")
           \cup If(r.st # "hang", "write.hang")
           \cup If(~(Promised(F, m) /\ r.st = "err"), "write.refused")
           \cup If(~((UnsupportedBlocks(F, Reduced(F, m)) # {} \/ Reduces(F, m)) /\ r.st = "ok" /\ ~r.says), "loss.silent")
\* names of cell data that earlier writes to the same place stored and this one does not
Leftovers(x, m) == IF IsNone(x) THEN {} ELSE (x.old \cup Names(x.m.cd)) \ Names(SelectSeq(m.cd, LAMBDA d : d.nc <= 1))
WriteNext(mem, fs, e) ==
   LET m == MeshIn(mem, e.s) IN
   IF IsNone(m) THEN fs
   ELSE (e.f :> [fid |-> e.fid, m |-> m, old |-> Leftovers(FileAt(fs, e.f), m), state |-> IF e.res.st = "ok" THEN "good" ELSE "bad", seen |-> None, seenas |-> ""]) @@ fs

\* the caller's mesh after the call, whatever was done to it
MemNext(mem, e) == IF "after" \in DOMAIN e.res THEN (e.s :> e.res.after) @@ mem ELSE mem

\* ---- read --------------------------------------------------------------
ReadVerdict0(fs, e) ==
   LET x == FileAt(fs, e.f)
       r == e.res
       F == Fid(e.fid)
   IN IF r.st = "hang" THEN {"read.hang"}
      ELSE IF IsNone(x) THEN If(r.st # "ok", "read.nofile")
      ELSE IF x.state # "good" THEN {}
      ELSE IF ~Consistent(x.m) THEN {}
      ELSE IF KeptMesh(Fid(x.fid), Reduced(Fid(x.fid), x.m)).blocks = <<>> THEN {}
      ELSE IF NumCells(KeptMesh(Fid(x.fid), Reduced(Fid(x.fid), x.m))) = 0 THEN {}   \* nothing to keep
      ELSE IF ~EmptyOK(Fid(x.fid), x.m) THEN {}
      ELSE IF r.st # "ok" THEN {"read.failed"}
      ELSE IF F.rf # Fid(x.fid).rf THEN {}
      ELSE IF ~Consistent(r.m) THEN {"read.inconsistent"}
      ELSE RT(Fid(x.fid), Reduced(Fid(x.fid), x.m), r.m)
\* DOLFIN XML keeps every cell data array in a file of its own: arrays an earlier write left
\* behind (or that no longer fit) are a matter of their own
ReadVerdict(fs, e) ==
   LET x == FileAt(fs, e.f)
       v == ReadVerdict0(fs, e)
       st == {"read.failed", "data.cell.spurious"}
   IN IF ~IsNone(x) /\ x.old # {} /\ Fid(x.fid).shape = "dolfin" /\ v \cap st # {} THEN (v \ st) \cup {"history.stale"} ELSE v

\* ---- two files of the same mesh -----------------------------------------
\* names on which two variants must agree
Shared(F, s, extra) == IF F.fmt \in {"gmsh", "gmsh22", "stl", "ply"} THEN SelectSeq(s, LAMBDA d : d.n \notin extra) ELSE s
SameArr(F, d, g, ord1, ord2) ==
   /\ NC(d.nc) = NC(g.nc)
   /\ (F.keepdt => (d.dt = g.dt \/ d.dt = "" \/ g.dt = ""))
   /\ ord1 = ord2
\* the cell sets without their names: which cells
SetsOf(cs, o) ==
   {IF Len(g.m) # Len(o.blocks) \/ \E x \in FlatSet(o, g) : x < 0 \/ x >= Len(cs) THEN <<"broken">> ELSE Ranked(cs, FlatSet(o, g)) : g \in RangeOf(o.cs)}
Agree(F, o, G, p) ==       \* o read from variant F, p from variant G, same source
   LET oc == FlatCells(o) pc == FlatCells(p)
       opd == Shared(F, o.pd, F.xpd \cup G.xpd) ppd == Shared(F, p.pd, F.xpd \cup G.xpd)
       ocd == Shared(F, o.cd, F.xcd \cup G.xcd) pcd == Shared(F, p.cd, F.xcd \cup G.xcd)
   IN If(o.dim = p.dim /\ o.pts = p.pts, "agree.points")
      \cup If(Arrange(F, oc, [i \in DOMAIN oc |-> oc[i].c]) = Arrange(G, pc, [i \in DOMAIN pc |-> pc[i].c]), "agree.cells")
      \cup If(Names(opd) = Names(ppd) /\ Names(ocd) = Names(pcd), "agree.names")
      \cup If(\A n \in Names(opd) \cap Names(ppd) : SameArr(F, Get(opd, n), Get(ppd, n), Get(opd, n).r, Get(ppd, n).r), "agree.pointdata")
      \cup If(\A n \in Names(ocd) \cap Names(pcd) :
               SameArr(F, Get(ocd, n), Get(pcd, n), Arrange(F, oc, FlatRows(Get(ocd, n))), Arrange(G, pc, FlatRows(Get(pcd, n)))), "agree.celldata")
      \cup If(o.fd = p.fd \/ F.fmt # G.fmt, "agree.field")
      \cup If(F.shape # G.shape \/ F.via # G.via \/ (Len(o.ps) = Len(p.ps) /\ Len(o.cs) = Len(p.cs)), "agree.sets")
      \cup If(F.shape # G.shape \/ F.via # G.via \/ (SetsOf(oc, o) = SetsOf(pc, p) /\ {RangeOf(x.m) : x \in RangeOf(o.ps)} = {RangeOf(x.m) : x \in RangeOf(p.ps)}), "agree.members")
\* the same variant through another entry point: everything is equal
Identical(o, p) == If(o = p, "agree.identical")

RefVerdict(ref, e) ==
   IF "grp" \notin DOMAIN e \/ e.res.st # "ok" \/ IsNone(ref) \/ ~Consistent(e.res.m) \/ ~Consistent(ref.m) THEN {}
   ELSE IF ref.fid = e.fid THEN Identical(ref.m, e.res.m)
   ELSE Agree(Fid(ref.fid), ref.m, Fid(e.fid), e.res.m)

\* ---- what must be refused, and must leave everything alone -----------------
WrongShape(m) == \E k \in DOMAIN m.blocks : \E j \in DOMAIN m.blocks[k].c : Len(m.blocks[k].c[j]) # NN(m.blocks[k].t)
Formats0 == {Variants[i].fmt : i \in DOMAIN Variants} \cup {"svg"}
MustRefuse(mem, fs, e) ==
   CASE e.why = "shape" -> e.op = "rwrite" /\ ~IsNone(MeshIn(mem, e.s)) /\ WrongShape(mem[e.s])
     [] e.why = "format" -> e.fmt \notin Formats0
     [] e.why = "missing" -> IsNone(FileAt(fs, e.f))
     [] OTHER -> TRUE
RefuseVerdict(mem, fs, e) ==
   IF ~MustRefuse(mem, fs, e) THEN {}
   ELSE If(e.res.st # "ok", "dispatch.accepted") \cup If(e.res.st # "hang", "write.hang")
        \cup If(e.res.before = e.res.after, "dispatch.wrote")
        \cup If("mut" \notin DOMAIN e.res \/ e.res.mut = <<>>, "pure.mutated")

\* ---- history -----------------------------------------------------------
\* the same mesh, whatever the order of names, and of members within a set
SameNamed(a, b) ==
   /\ \A k \in DOMAIN a : k \in {"pd", "cd", "fd", "ps", "cs"} \/ a[k] = b[k]
   /\ RangeOf(a.pd) = RangeOf(b.pd) /\ {d \in RangeOf(a.cd) : d.n # "cell_ids"} = {d \in RangeOf(b.cd) : d.n # "cell_ids"} /\ RangeOf(a.fd) = RangeOf(b.fd)
   /\ {<<s.n, RangeOf(s.m)>> : s \in RangeOf(a.ps)} = {<<s.n, RangeOf(s.m)>> : s \in RangeOf(b.ps)}
   /\ {<<s.n, [k \in DOMAIN s.m |-> RangeOf(s.m[k])]>> : s \in RangeOf(a.cs)} = {<<s.n, [k \in DOMAIN s.m |-> RangeOf(s.m[k])]>> : s \in RangeOf(b.cs)}
\* reading a file again gives what it gave before
RereadVerdict(fs, e) ==
   LET x == FileAt(fs, e.f) IN
   IF IsNone(x) \/ e.res.st # "ok" \/ IsNone(x.seen) THEN {}
   ELSE IF x.seenas # e.fmt THEN {} ELSE If(x.seen = e.res.m \/ ("varied" \in DOMAIN x /\ SameNamed(x.seen, e.res.m)), IF "varied" \in DOMAIN x THEN "vary.differs" ELSE "history.reread")
SeenNext(fs, e) ==
   IF e.f \in DOMAIN fs /\ e.res.st = "ok" /\ IsNone(fs[e.f].seen)
   THEN [fs EXCEPT ![e.f].seen = e.res.m, ![e.f].seenas = e.fmt] ELSE fs
\* a mesh in memory stays what it is
LookVerdict(mem, e) ==
   LET m == MeshIn(mem, e.s) IN
   IF IsNone(m) THEN {} ELSE IF e.res.st # "ok" THEN {"memory.garbled"}
   ELSE If(\A k \in DOMAIN e.res.m : k = "lay" \/ e.res.m[k] = m[k], "memory.changed")

ReadNext(mem, fs, e) ==
   IF e.res.st = "ok" THEN (e.s :> e.res.m) @@ mem ELSE (e.s :> None) @@ mem
=============================================================================
