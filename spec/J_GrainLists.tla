---------------------------- MODULE J_GrainLists ----------------------------
(* C10: recorded histories.  case: init, evs: [op, n, x, f, v, res, out, num, view, meta, json, doc]              *)
(* view: the list read through the grain afterwards, meta: the one in its metadata, json: the metadata can be       *)
(* written as JSON, doc: <<>> or <<what the event grain's data parses to: type, topic, list>> to be as head says     *)
EXTENDS Judge, GrainLists
RECURSIVE Run(_, _, _, _)
Run(c, S, h, i) ==
  IF i > Len(c.evs) THEN {}
  ELSE LET ev == c.evs[i]
           d == ev.op = "doc"                     \* the event's serialised form is assigned
           k == ev.op = "head"                    \* type or topic
           r == IF d THEN OK(ev.x, <<>>, 0) ELSE IF k THEN OK(S, <<>>, 0) ELSE Do(S, ev.op, ev.n, ev.x, ev.f, ev.v)
           g == IF d THEN ev.v ELSE IF k THEN [h EXCEPT ![ev.f] = ev.v] ELSE h
           bad == (IF ev.res # r[2] THEN {"result " \o ev.res \o ", expected " \o r[2]} ELSE {})
                  \union (IF ev.res = "ok" /\ r[2] = "ok" /\ (ev.out # r[3] \/ ev.num # r[4]) THEN {"returned"} ELSE {})
                  \union (IF ev.view # r[1] THEN {"list"} ELSE {})
                  \union (IF ev.meta # r[1] THEN {"metadata"} ELSE {})
                  \union (IF ~ev.json THEN {"metadata cannot be written"} ELSE {})
                  \union (IF ev.doc # <<>> /\ ev.doc[1] # <<g, r[1]>> THEN {"data parses to another event"} ELSE {})
       IN IF bad # {} THEN { ToString(<<i, ev.op, ev.n, Len(ev.x), "on", Len(S)>>) \o ": " \o b : b \in bad } ELSE Run(c, r[1], g, i + 1)
CaseVerdict(c) == IF c.view # c.init THEN {"construction: list"} ELSE Run(c, c.init, c.head, 1)
=============================================================================
