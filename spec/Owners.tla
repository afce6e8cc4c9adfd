-------------------------------- MODULE Owners --------------------------------
(***************************************************************************)
(* Which property a broken clause counts against.  A check runs the        *)
(* behaviours of one property; a clause is reported when it belongs to     *)
(* that property.  Operations that fail outright count against every       *)
(* property that promises a result.                                        *)
(***************************************************************************)
EXTENDS Sequences, TLC
CONSTANT Prop

Failure == {"write.refused", "read.failed", "read.hang", "write.hang", "read.inconsistent", "new.refused"}
Geometry == {"geo.points.count", "geo.points.values", "geo.points.dim", "geo.points.digits",
  "geo.cells.count", "geo.cells.types", "geo.cells.nodes", "geo.cells.order", "geo.cells.type", "geo.cells.corners"}
Data == {"data.point.missing", "data.point.rows", "data.point.components", "data.point.digits", "data.point.dtype",
  "data.point.spurious", "data.cell.missing", "data.cell.rows", "data.cell.components", "data.cell.digits",
  "data.cell.dtype", "data.cell.spurious"}
Labels == {"tag.cell.missing", "tag.cell.rows", "tag.cell.values", "tag.point.missing", "tag.point.values",
  "tag.field.missing", "tag.field.values", "tag.field.spurious", "tag.periodic",
  "set.point.missing", "set.point.members", "set.point.spurious", "set.cell.missing", "set.cell.shape",
  "set.cell.members", "set.cell.spurious"}
Purity == {"pure.mutated", "pure.padded"}
Agreement == {"agree.points", "agree.cells", "agree.names", "agree.pointdata", "agree.celldata", "agree.field",
  "agree.sets", "agree.members", "agree.identical"}
History == {"history.reread", "memory.changed", "memory.garbled", "read.nofile", "history.stale"}
ObjectOps == {"new.accepted", "new.refused", "new.other", "view.cells", "view.celldata", "view.cellsets", "view.type", "view.datatype",
  "view.blocks", "view.repr", "copy.failed", "copy.differs", "memory.changed", "memory.garbled"}
Conversions == {"conv.noop", "conv.failed", "conv.name", "conv.numbers", "conv.leftover", "conv.others", "conv.accepted",
  "conv.spoilt", "conv.members", "memory.changed", "memory.garbled", "new.refused"}
Dispatch == {"dispatch.refused", "dispatch.accepted", "dispatch.tried", "dispatch.format", "dispatch.wrote", "dispatch.passed", "dispatch.register"}
SeriesOps == {"series.refused", "series.accepted", "series.misuse", "series.stray", "series.unreadable", "series.count", "series.time",
  "series.names", "read.nofile", "read.inconsistent", "pure.mutated"}
CliOps == {"cli.failed", "cli.accepted", "cli.touched", "cli.damaged", "cli.representation", "cli.twin", "cli.info", "cli.flag"}
Conformance == {"conf.structure", "conf.counts", "conf.code", "conf.numbering"}
RoundTrip == Geometry \cup Data \cup Labels

Owned ==
  [ C01 |-> Geometry \cup Failure,
    C02 |-> Data \cup Failure,
    C03 |-> Labels \cup Failure,
    C04 |-> Purity,
    C05 |-> {"loss.silent"} \cup RoundTrip \cup Failure,
    C06 |-> Agreement \cup RoundTrip \cup Failure,
    C07 |-> Dispatch \cup Geometry \cup Failure,
    C08 |-> ObjectOps,
    C09 |-> Conversions,
    C10 |-> CliOps \cup RoundTrip \cup Failure,
    C11 |-> SeriesOps \cup Geometry \cup Data,
    C12 |-> {"cut.partial", "cut.lost", "cut.garbled", "read.hang"},
    C13 |-> Conformance \cup RoundTrip \cup {"write.refused", "write.hang"},
    C14 |-> {"vary.differs", "vary.broken", "foreign.broken"} \cup RoundTrip \cup Failure,
    C15 |-> History \cup RoundTrip \cup Failure,
    C16 |-> RoundTrip \cup Failure ]

Report(fam, clause) == Prop = "ALL" \/ clause \in Owned[Prop]
=============================================================================
