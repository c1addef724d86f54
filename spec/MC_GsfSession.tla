---------------------------- MODULE MC_GsfSession ---------------------------
(* Every short history of a session: checks conservation of grains and prints the histories for replay.        *)
EXTENDS GsfSession, TLC, Json
CONSTANTS Depth, Emit
VARIABLES st, hist, given, filed       \* given: grains accepted so far; filed: grains in finished files
Lids == {<<>>, <<1>>, <<2>>}
Ids == {<<>>, <<"A">>}
N == Cardinality(given)
Base == [op |-> "", via |-> "enc", how |-> "sync", k |-> 0, lid |-> <<>>, id |-> <<>>, tags |-> <<>>, flow |-> <<>>,
         cut |-> FALSE, gs |-> <<>>, res |-> "ok", segs |-> <<>>]
Vias == IF st.ph = "idle" THEN {"enc"} ELSE {"enc", "sess"}
Evs ==
  { [Base EXCEPT !.op = "tag", !.via = v, !.tags = <<"t">>] : v \in Vias }
  \union { [Base EXCEPT !.op = "segment", !.via = v, !.lid = l, !.id = i] : v \in Vias, l \in Lids, i \in Ids }
  \union { [Base EXCEPT !.op = "grains", !.via = v, !.lid = l, !.id = i, !.gs = <<N + 1>>]
           : v \in Vias, l \in Lids, i \in Ids }
  \union { [Base EXCEPT !.op = o, !.k = 1, !.tags = <<"t">>, !.flow = <<"f">>] : o \in (IF st.segs = <<>> THEN {} ELSE {"segtag", "segflow"}) }
  \union { [Base EXCEPT !.op = "seggrains", !.k = k, !.gs = <<N + 1, N + 2>>]
           : k \in (IF st.segs = <<>> THEN {} ELSE {1, Len(st.segs)}) }
  \union { [Base EXCEPT !.op = "seggrains", !.k = 1, !.gs = <<N + 1, N + 2>>, !.cut = TRUE] : k \in (IF st.segs = <<>> THEN {} ELSE {1}) }
  \union { [Base EXCEPT !.op = "grains", !.via = v, !.gs = <<N + 1, N + 2>>, !.cut = TRUE] : v \in IF st.segs = <<>> THEN {} ELSE Vias }
  \union (IF st.ph = "idle" THEN { [Base EXCEPT !.op = "enter", !.via = v] : v \in {"stream", "held"} } ELSE {})
  \union (IF st.ph # "idle" THEN { [Base EXCEPT !.op = "exit"] } ELSE {})
(* resolve an event: a result the documentation allows, and the segments it leaves *)
Resolved(ev) ==
  LET r == CHOOSE x \in Allowed(st, ev) : x \in {"ok", "source"} \/ {"ok", "source"} \intersect Allowed(st, ev) = {}
      e1 == [ev EXCEPT !.res = r]
      old == [i \in 1..Len(st.segs) |-> [lid |-> st.segs[i].lid, id |-> st.segs[i].id]]
  IN [e1 EXCEPT !.segs = IF ~Creates(st, e1) THEN old
                         ELSE Append(old, [lid |-> IF ev.lid = <<>> THEN MaxOf(Used(st)) + 1 ELSE ev.lid[1],
                                           id |-> IF ev.id = <<>> THEN ToString(Len(old)) ELSE ev.id[1]])]
InFile(s) == UNION { Range(FileGrains(s)[i]) : i \in 1..Len(s.segs) }
Init == st = Start /\ hist = <<>> /\ given = {} /\ filed = {}
Step(ev) == \E n \in Taken(st, ev) :
            /\ SegsOk(st, ev)
            /\ st' = Next(st, ev, n)
            /\ hist' = Append(hist, ev)
            /\ given' = IF ev.res \in {"ok", "source"} THEN given \union Range(SubSeq(ev.gs, 1, n)) ELSE given
            /\ filed' = IF ev.op = "exit" THEN filed \union InFile(st) ELSE filed
MNext == Len(hist) < Depth /\ \E ev \in Evs : Step(Resolved(ev))
(* every accepted grain is in exactly one place *)
Conserved ==
  /\ filed \intersect InFile(st) = {}
  /\ given = filed \union InFile(st)
  /\ \A i \in 1..Len(st.segs) : IsInjective(FileGrains(st)[i])
  /\ \A i, j \in 1..Len(st.segs) : i # j => Range(FileGrains(st)[i]) \intersect Range(FileGrains(st)[j]) = {}
Distinct == \A i, j \in 1..Len(st.segs) : i # j => st.segs[i].lid # st.segs[j].lid
Slim(ev) == [op |-> ev.op, via |-> ev.via, k |-> ev.k, lid |-> ev.lid, id |-> ev.id, n |-> Len(ev.gs), cut |-> ev.cut]
Printed == (Emit /\ Len(hist) = Depth) => PrintT("BEH " \o ToJson([i \in 1..Len(hist) |-> Slim(hist[i])]))
=============================================================================
