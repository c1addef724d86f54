----------------------------- MODULE GsfSession -----------------------------
(* The session state machine of a GSF encoder.                                                                *)
(* State: ph "idle" | "held" (an open session that writes everything at its end) | "stream" (header written);  *)
(*   how: "sync" | "async"; tags; segs in creation order, each [lid, id, tags, flow, pend, out]: pend accepted   *)
(*   grains that may still be unwritten, out grains certainly written; refused: some add_segment was refused   *)
(* Event: [op, via, k, lid, id, tags, flow, gs, res, segs]; via "enc" | "sess"; k a segment by position;         *)
(*   lid, id: <<>> or <<value>>; gs grains; cut: what the grains come from fails after them;                     *)
(*   res "ok" | "active" | "encode" | "source" (the failure passed on) | other; segs: observed seq of [lid, id]  *)
(*   afterwards                                                                                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Start == [ph |-> "idle", how |-> "sync", tags |-> <<>>, segs |-> <<>>, refused |-> FALSE]
NewSeg(lid, id, tags) == [lid |-> lid, id |-> id, tags |-> tags, flow |-> <<>>, pend |-> <<>>, out |-> <<>>]

Used(st) == { st.segs[i].lid : i \in 1..Len(st.segs) }
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
PosOf(st, lid) == CHOOSE i \in 1..Len(st.segs) : st.segs[i].lid = lid

(* the segment an add_grain(s) call names: <<position>>, or <<>> when one must be created *)
Target(st, ev) ==
  IF ev.lid # <<>> THEN (IF ev.lid[1] \in Used(st) THEN <<PosOf(st, ev.lid[1])>> ELSE <<>>)
  ELSE LET m == { st.segs[i].lid : i \in { i \in 1..Len(st.segs) : ev.id = <<>> \/ st.segs[i].id = ev.id[1] } }
       IN IF m = {} THEN <<>> ELSE <<PosOf(st, MinOf(m))>>

Duplicate(st, ev) == ev.lid # <<>> /\ ev.lid[1] \in Used(st)

(* the results the documentation allows *)
Plainly(st, ev) ==
  CASE ev.op = "tag" -> CASE st.ph = "idle" -> {"ok"}
                          [] st.ph = "stream" -> {"active"}
                          [] OTHER -> IF ev.via = "sess" THEN {"ok"} ELSE {"ok", "active"}
    [] ev.op = "segment" -> LET plain == IF Duplicate(st, ev) THEN {"encode"} ELSE {"ok"} IN
                            CASE st.ph = "idle" -> plain
                              [] st.ph = "stream" -> {"active"} \union (plain \ {"ok"})
                              [] OTHER -> IF ev.via = "sess" THEN plain ELSE plain \union {"active"}
    [] ev.op \in {"segtag", "segflow"} -> IF st.ph = "stream" THEN {"active"} ELSE {"ok"}
    [] ev.op = "grains" -> IF Target(st, ev) # <<>> THEN {"ok"}
                           ELSE IF st.ph = "stream" THEN {"encode", "active"} ELSE {"ok"}
    [] ev.op = "seggrains" -> {"ok"}
    [] ev.op = "enter" -> {"ok"}
    [] ev.op = "exit" -> {"ok"}
    [] OTHER -> {"ok"}

Allowed(st, ev) == LET p == Plainly(st, ev) IN IF ev.cut /\ "ok" \in p THEN (p \ {"ok"}) \union {"source"} ELSE p

Creates(st, ev) == \/ ev.res = "ok" /\ (ev.op = "segment" \/ (ev.op = "grains" /\ Target(st, ev) = <<>>))
                   \/ ev.res = "source" /\ ev.op = "grains" /\ Target(st, ev) = <<>> /\ Len(ev.segs) > Len(st.segs)

(* is the observed list of segments the one this event must leave? *)
SegsOk(st, ev) ==
  LET n == Len(st.segs)
      old == [i \in 1..n |-> [lid |-> st.segs[i].lid, id |-> st.segs[i].id]]
  IN IF ~Creates(st, ev) THEN ev.segs = old
     ELSE /\ Len(ev.segs) = n + 1
          /\ SubSeq(ev.segs, 1, n) = old
          /\ LET s == ev.segs[n + 1] IN
             /\ s.lid \notin Used(st)
             /\ (ev.lid # <<>> => s.lid = ev.lid[1])
             /\ (ev.id # <<>> => s.id = ev.id[1])
             /\ (ev.lid = <<>> => IF st.refused THEN s.lid > MaxOf(Used(st)) ELSE s.lid = MaxOf(Used(st)) + 1)
             /\ (ev.id = <<>> => \A i \in 1..n : st.segs[i].id # s.id)

(* grains accepted for segment i *)
Accept(st, i, gs, sure) ==
  IF sure THEN [st EXCEPT !.segs[i].out = @ \o st.segs[i].pend \o gs, !.segs[i].pend = <<>>]
  ELSE [st EXCEPT !.segs[i].pend = @ \o gs]
Created(st, ev, tags) == LET s == ev.segs[Len(ev.segs)] IN [st EXCEPT !.segs = Append(@, NewSeg(s.lid, s.id, tags))]

(* in a synchronous streaming session, and through an asynchronous session itself, grains are written at once *)
AtOnce(st, ev) == st.ph = "stream" /\ (st.how = "sync" \/ (ev.op = "grains" /\ ev.via = "sess"))

(* how many of the grains may have been accepted *)
Taken(st, ev) == IF ev.res # "source" THEN {Len(ev.gs)}
                 ELSE IF ev.op = "grains" /\ Target(st, ev) = <<>> /\ ~Creates(st, ev) THEN {0} ELSE 0..Len(ev.gs)
Next(st, full, n) ==
  LET ev == [full EXCEPT !.gs = SubSeq(@, 1, n)] IN
  IF ev.res \notin {"ok", "source"} THEN (IF ev.op \in {"segment", "grains"} THEN [st EXCEPT !.refused = TRUE] ELSE st)
  ELSE CASE ev.op = "tag" -> [st EXCEPT !.tags = Append(@, ev.tags[1])]
         [] ev.op = "segment" -> Created(st, ev, ev.tags)
         [] ev.op = "segtag" -> [st EXCEPT !.segs[ev.k].tags = Append(@, ev.tags[1])]
         [] ev.op = "segflow" -> [st EXCEPT !.segs[ev.k].flow = ev.flow]
         [] ev.op = "grains" -> LET s1 == IF Creates(st, ev) THEN Created(st, ev, <<>>) ELSE st
                                    i == IF Creates(st, ev) THEN Len(s1.segs) ELSE Target(st, ev)[1]
                                IN IF ev.res = "source" /\ ~Creates(st, ev) /\ Target(st, ev) = <<>> THEN st ELSE Accept(s1, i, ev.gs, AtOnce(st, ev))
         [] ev.op = "seggrains" -> Accept(st, ev.k, ev.gs, AtOnce(st, ev))
         [] ev.op = "enter" ->
              LET s1 == [st EXCEPT !.ph = IF ev.via = "stream" THEN "stream" ELSE "held", !.how = ev.how]
              IN IF ev.via = "stream"
                 THEN [s1 EXCEPT !.segs = [i \in 1..Len(st.segs) |-> [st.segs[i] EXCEPT !.out = st.segs[i].pend, !.pend = <<>>]]]
                 ELSE s1
         [] ev.op = "exit" -> [st EXCEPT !.ph = "idle",
                                         !.segs = [i \in 1..Len(st.segs) |-> [st.segs[i] EXCEPT !.out = <<>>, !.pend = <<>>]]]
         [] OTHER -> st

(* what the file finished by an exit in this state must hold: per segment, in order *)
FileGrains(st) == [i \in 1..Len(st.segs) |-> st.segs[i].out \o st.segs[i].pend]
=============================================================================
