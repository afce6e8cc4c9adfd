-------------------------------- MODULE Design --------------------------------
(***************************************************************************)
(* The design, closed: the state machine of System with an ideal library   *)
(* in place of the real one, explored exhaustively.                        *)
(*   Fault = "none": whatever the history, an ideal library breaks no      *)
(*     clause - the clauses can be met together, they do not depend on     *)
(*     the history, conversions compose.                                   *)
(*   Fault = "any": one step of the history is spoilt in one of the ways a *)
(*     library can go wrong; every such step breaks a clause - no clause   *)
(*     is vacuous.                                                         *)
(***************************************************************************)
EXTENDS System, TLC
CONSTANTS Fault, MaxSteps

Slots == {"a", "b"}
Files == {"x", "y"}
\* variants with nothing peculiar: what is read is what was written
Ids == {"vtu-raw", "xdmf", "hmf"}
Plain == {i \in DOMAIN Variants : Variants[i].id \in Ids}
PlainIds == {Variants[i].id : i \in Plain}

Blk(t, c) == [t |-> t, dt |-> "i8", c |-> c]
Arr(n, nc, r) == [n |-> n, nc |-> nc, dt |-> "f8", dig |-> 17, r |-> r]
Blank == [dim |-> 3, pdig |-> 17, pdt |-> "f8", lay |-> "c", fd |-> <<>>, ps |-> <<>>, cs |-> <<>>, gp |-> <<>>, pd |-> <<>>, cd |-> <<>>]
M1 == Blank @@ [pts |-> <<1, 2, 3, 4>>, blocks |-> <<Blk("triangle", <<<<0, 1, 2>>, <<1, 3, 2>>>>)>>, sg |-> <<<<0, 0>>>>]
M2 == [Blank EXCEPT !.pd = <<Arr("u", 0, <<10000001, 10000002, 10000003, 10000004, 10000005>>)>>,
                   !.cd = <<Arr("s", 3, <<<<10000011, 10000012>>, <<10000013>>>>)>>]
      @@ [pts |-> <<5, 6, 7, 8, 9>>, blocks |-> <<Blk("triangle", <<<<0, 1, 2>>, <<1, 3, 2>>>>), Blk("quad", <<<<0, 1, 3, 4>>>>)>>, sg |-> <<<<0, 0>>, <<0>>>>]
Start == {M1, M2}

VARIABLES mem, fs, bad, spoilt, n
vars == <<mem, fs, bad, spoilt, n>>
Nothing == [x \in {} |-> None]
Init == mem = Nothing /\ fs = Nothing /\ bad = {} /\ spoilt = FALSE /\ n = 0

\* ---- ways to go wrong ----------------------------------------------------

DropCell(m) == [m EXCEPT !.blocks = [k \in DOMAIN m.blocks |-> IF k < Len(m.blocks) THEN m.blocks[k]
                  ELSE [m.blocks[k] EXCEPT !.c = SubSeq(@, 1, Len(@) - 1)]]]
TurnCell(m) == [m EXCEPT !.blocks[1].c[1] = <<@[2], @[1], @[3]>>]
SwapCells(m) == [m EXCEPT !.blocks[1].c = <<@[2], @[1]>>]
SwapBlocks(m) == [m EXCEPT !.blocks = [k \in DOMAIN @ |-> @[Len(@) + 1 - k]]]
SwapPoints(m) == [m EXCEPT !.pts[1] = m.pts[2], !.pts[2] = m.pts[1]]
MorePoint(m) == [m EXCEPT !.pts = @ \o <<1>>]
Flat(m) == [m EXCEPT !.dim = 2]
Blur(m) == [m EXCEPT !.pdig = 3]
DropPd(m) == [m EXCEPT !.pd = <<>>]
SwapPd(m) == IF m.pd = <<>> THEN m ELSE [m EXCEPT !.pd[1].r = <<@[2], @[1]>> \o SubSeq(@, 3, Len(@))]
NamePd(m) == IF m.pd = <<>> THEN m ELSE [m EXCEPT !.pd[1].n = "v"]
ShiftCd(m) == IF m.cd = <<>> THEN m ELSE [m EXCEPT !.cd[1].r = <<<<@[2][1], @[1][1]>>, <<@[1][2]>>>>]
BlurCd(m) == IF m.cd = <<>> THEN m ELSE [m EXCEPT !.cd[1].dig = 4]
ThinCd(m) == IF m.cd = <<>> THEN m ELSE [m EXCEPT !.cd[1].nc = 2]
MoreCd(m) == [m EXCEPT !.cd = @ \o <<Arr("w", 0, [k \in DOMAIN m.blocks |-> [i \in DOMAIN m.blocks[k].c |-> 10000099]])>>]
Apply(i, m) ==
   CASE i = 1 -> DropCell(m) [] i = 2 -> TurnCell(m) [] i = 3 -> SwapCells(m) [] i = 4 -> SwapBlocks(m) [] i = 5 -> SwapPoints(m)
     [] i = 6 -> MorePoint(m) [] i = 7 -> Flat(m) [] i = 8 -> Blur(m) [] i = 9 -> DropPd(m) [] i = 10 -> SwapPd(m)
     [] i = 11 -> NamePd(m) [] i = 12 -> ShiftCd(m) [] i = 13 -> BlurCd(m) [] i = 14 -> ThinCd(m) [] i = 15 -> MoreCd(m)
MaySpoil == Fault = "any" /\ ~spoilt

\* ---- operations ------------------------------------------------------------
New(s, m) ==
   /\ mem' = (s :> m) @@ mem /\ bad' = {} /\ UNCHANGED <<fs, spoilt>>
DoWrite(s, f, id) ==
   /\ ~IsNone(MeshIn(mem, s))
   /\ \E st \in {"ok", "err"}, mut \in {<<>>, <<"points">>} :
        /\ (st = "err" \/ mut # <<>>) => MaySpoil
        /\ LET e == [op |-> "write", s |-> s, f |-> f, fid |-> id, res |-> [st |-> st, says |-> FALSE, mut |-> mut]]
           IN /\ bad' = WriteVerdict(mem, e)
              /\ fs' = WriteNext(mem, fs, e)
              /\ mem' = mem
              /\ spoilt' = (spoilt \/ st = "err" \/ mut # <<>>)
DoRead(f, s) ==
   /\ ~IsNone(FileAt(fs, f)) /\ fs[f].state = "good"
   /\ \E w \in 0..15 :
        /\ w > 0 => (MaySpoil /\ Apply(w, fs[f].m) # fs[f].m)
        /\ LET F == Fid(fs[f].fid)
               e == [op |-> "read", s |-> s, f |-> f, fid |-> fs[f].fid, fmt |-> F.rf,
                     res |-> [st |-> "ok", m |-> IF w = 0 THEN fs[f].m ELSE Apply(w, fs[f].m)]]
           IN /\ bad' = ReadVerdict(fs, e) \cup RereadVerdict(fs, e)
              /\ mem' = ReadNext(mem, fs, e)
              /\ fs' = SeenNext(fs, e)
              /\ spoilt' = (spoilt \/ w > 0)
\* an array in memory changes under an unrelated operation
DoLook(s) ==
   /\ ~IsNone(MeshIn(mem, s))
   /\ \E w \in {0, 2, 5} :
        /\ w > 0 => (MaySpoil /\ Apply(w, mem[s]) # mem[s])
        /\ LET e == [op |-> "look", s |-> s, res |-> [st |-> "ok", m |-> IF w = 0 THEN mem[s] ELSE Apply(w, mem[s])]]
           IN bad' = LookVerdict(mem, e) /\ spoilt' = (spoilt \/ w > 0)
   /\ UNCHANGED <<mem, fs>>

Next ==
   /\ n < MaxSteps /\ n' = n + 1
   /\ ~spoilt                        \* what follows a fault is not judged here
   /\ \/ \E s \in Slots, m \in Start : IsNone(MeshIn(mem, s)) /\ New(s, m)
      \/ \E s \in Slots, f \in Files, id \in PlainIds : DoWrite(s, f, id)
      \/ \E s \in Slots, f \in Files : DoRead(f, s)
      \/ \E s \in Slots : DoLook(s)
Spec == Init /\ [][Next]_vars

\* ---- the design is right -----------------------------------------------------
Quiet == ~spoilt => bad = {}
Alarm == spoilt => bad # {}
\* conversions compose: whatever the history, a mesh in memory is one of those it began with
Composed == ~spoilt => \A s \in Slots : IsNone(MeshIn(mem, s)) \/ mem[s] \in Start
\* a file holds the mesh last written to it
Held == ~spoilt => \A f \in Files : IsNone(FileAt(fs, f)) \/ fs[f].m \in Start
=============================================================================
