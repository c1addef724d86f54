----------------------------- MODULE J_GsfLoad ------------------------------
(* C06: a recorded history of a reading session.                                                               *)
(* case: bytes, conc, kind [async, seek], evs: seq of                                                           *)
(*   [op "iter", mode, ids]; [op "next", end, lid, g, err]; [op "await" | "touch", k, data, err]; [op "len", k, n, err]; *)
(*   [op "exit", err]; [op "gather", subs]: operations of several tasks at once                                 *)
EXTENDS Judge, Gsf
L == INSTANCE GsfLoad
NoEvent == <<123, 34, 116, 121, 112, 101, 34, 58, 32, 34, 34, 44, 32, 34, 116, 111, 112, 105, 99, 34, 58, 32, 34, 34,
             44, 32, 34, 100, 97, 116, 97, 34, 58, 32, 91, 93, 125>>
FileOf(d) == [i \in 1..Len(d.grains) |-> [lid |-> d.grains[i].lid, n |-> Len(d.grains[i].g.data), g |-> d.grains[i].g]]
Meta(g) == [g EXCEPT !.data = <<>>]
IsEvent(file, st, k) == file[st.h[k].i].g.t = "event"
(* the bytes that stand for a grain's whole data, or for none; an event grain without data shows an empty event *)
Shows(file, st, k, x) ==
  LET g == file[st.h[k].i].g IN
  IF x = "full" THEN (IF g.t = "event" /\ g.data = <<>> THEN NoEvent ELSE g.data)
  ELSE IF g.t = "event" /\ st.h[k].d # "pend" THEN NoEvent ELSE <<>>
(* <<next state, complaints>> of one observed event; during: handles awaited while the session is left *)
Step(file, c, st, ev) ==
  IF ev.err # "" THEN <<st, {ToString(<<ev.op, ev.err>>)}>>
  ELSE CASE ev.op = "iter" -> <<L!Iter(st, ev.mode, ev.ids), {}>>
    [] ev.op = "next" ->
         LET i == L!NextIdx(file, st)
             nx == L!Advance(file, c.kind, st)
         IN <<nx, IF i = 0 THEN (IF ev.end THEN {} ELSE {"a grain after the last one"})
                  ELSE IF ev.end THEN {ToString(<<"stopped before grain", i>>)}
                  ELSE (IF ev.lid # file[i].lid THEN {ToString(<<"segment", ev.lid, file[i].lid>>)} ELSE {})
                       \union { ToString(<<"grain", i, x>>) : x \in GrainDiff(Meta(file[i].g), Meta(ev.g)) }>>
    [] ev.op \in {"await", "touch"} ->
         LET aw == ev.op = "await" /\ c.kind.async
             may == L!Seen(c.kind, st, ev.k, aw)
             fit == { x \in may : Shows(file, st, ev.k, x) = ev.data }
             nx == L!Looked(c.kind, st, ev.k, aw, "full" \in fit)
         IN <<nx, IF fit # {} THEN {}
                  ELSE {ToString(<<"data of grain", st.h[ev.k].i, st.h[ev.k].d, "length", Len(ev.data),
                                   "instead of", { Len(Shows(file, st, ev.k, x)) : x \in may }>>)}>>
    [] ev.op = "len" ->
         <<st, IF IsEvent(file, st, ev.k) \/ ev.n \in L!Lens(file, c.kind, st, ev.k) THEN {}
               ELSE {ToString(<<"length of grain", st.h[ev.k].i, st.h[ev.k].d, ev.n>>)}>>
    [] ev.op = "exit" -> <<L!Exit(c.kind, st, {}), {}>>
    [] OTHER -> <<st, {"unknown operation"}>>
RECURSIVE Run(_, _, _, _, _)
(* several tasks at once: leaving the session is taken first, with the handles others were awaiting *)
Gather(file, c, st, subs) ==
  LET exits == \E j \in 1..Len(subs) : subs[j].op = "exit"
      busy == { subs[j].k : j \in { j \in 1..Len(subs) : subs[j].op = "await" } }
      bad == { ToString(<<subs[j].op, subs[j].err>>) : j \in { j \in 1..Len(subs) : subs[j].err # "" } }
      s1 == IF exits THEN L!Exit(c.kind, st, busy) ELSE st
      rest == SelectSeq(subs, LAMBDA x : x.op # "exit")
  IN IF bad # {} THEN <<s1, bad>> ELSE Run(file, c, s1, rest, 1)
(* returns <<state, complaints>>; stops at the first complaint *)
Run(file, c, st, evs, i) ==
  IF i > Len(evs) THEN <<st, {}>>
  ELSE LET r == IF evs[i].op = "gather" THEN Gather(file, c, st, evs[i].subs) ELSE Step(file, c, st, evs[i])
       IN IF r[2] # {} THEN <<r[1], { ToString(<<i, evs[i].op, x>>) : x \in r[2] }>>
          ELSE Run(file, c, r[1], evs, i + 1)
CaseVerdict(c) ==
  LET d == Decode(c.bytes, c.conc, <<>>) IN
  IF d.k # "ok" THEN {"the generated file is not conforming"}
  ELSE Run(FileOf(d), c, L!Start, c.evs, 1)[2]
=============================================================================
