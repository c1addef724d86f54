---------------------------- MODULE J_GsfSession ----------------------------
(* C05: a recorded history of a real encoder, with the bytes of every file it wrote.                           *)
(* case: gs (grain table), head [v, minor, id, created], onepass; evs: events of GsfSession with grains as      *)
(*   indices, plus pos (length of the current file after the event);                                           *)
(*   files: bytes of the file finished by each exit, in order                                                  *)
EXTENDS Judge, Gsf
S == INSTANCE GsfSession
(* same clause names as C01's *)
Written(c, s) == [i \in 1..Len(s) |-> [lid |-> 0, g |-> c.gs[s[i]]]]
Observed(d, lid) == LET g == SelectSeq(d.grains, LAMBDA x: x.lid = lid) IN [i \in 1..Len(g) |-> [lid |-> 0, g |-> g[i].g]]
Prefixed(a, lo, hi) == Len(a) >= lo /\ Len(a) <= hi
(* grains of each segment in a (possibly still growing) file *)
GrainsOf(c, st, d, whole) ==
  UNION { LET sg == st.segs[i]
              got == Observed(d, sg.lid)
              all == Written(c, sg.out \o sg.pend)
              lo == IF whole THEN Len(all) ELSE Len(sg.out)
          IN IF ~Prefixed(got, lo, Len(all)) THEN {ToString(<<"segment", sg.lid, "holds", Len(got), "of", lo, Len(all)>>)}
             ELSE GrainsDiff(SubSeq(all, 1, Len(got)), got)
          : i \in 1..Len(st.segs) }
  \union (IF \E j \in 1..Len(d.grains) : d.grains[j].lid \notin S!Used(st) THEN {"grains outside any segment"} ELSE {})
HeadOf(c, st, onepass) ==
  [id |-> c.head.id, created |-> ToUtc(c.head.created.t, c.head.created.off), tags |-> st.tags,
   segs |-> [i \in 1..Len(st.segs) |->
              LET sg == st.segs[i] IN
              [lid |-> sg.lid, id |-> sg.id, tags |-> sg.tags, flow |-> sg.flow,
               count |-> IF onepass THEN <<-1, <<1>>>> ELSE <<1, Limbs(Len(sg.out) + Len(sg.pend))>>]]]
Tail8(b) == SubSeq(b, Len(b) - 7, Len(b))
FileDiff(c, st, b) ==
  LET d == Decode(b, TRUE, <<>>) IN
  IF d.k # "ok" THEN {ToString(<<"the file is", d.k>>)}
  ELSE HeadDiff(HeadOf(c, st, c.onepass /\ st.ph = "stream"), d.head) \union GrainsOf(c, st, d, TRUE)
       \union (IF Tail8(b) # Terminator THEN {"no terminator"} ELSE {})
(* what the segments and the encoder say of themselves.  After a dump a segment's count may still be the dump's. *)
ViewDiff(st, ev, nf) ==
  (IF (st.ph = "stream" \/ nf = 1) /\ ev.counts # [i \in 1..Len(st.segs) |-> Len(st.segs[i].out) + Len(st.segs[i].pend)]
   THEN {ToString(<<"counts", ev.counts>>)} ELSE {})
  \union (IF ev.now[1] # st.tags THEN {"tags"} ELSE {})
  \union (IF ev.now[2] # [i \in 1..Len(st.segs) |-> st.segs[i].tags] THEN {"segment tags"} ELSE {})
  \union (IF ~ev.agree THEN {"the session shows something else"} ELSE {})
RECURSIVE Run(_, _, _, _), After(_, _, _, _, _)
(* what follows an event that took n grains *)
After(c, st, i, nf, n) ==
  LET ev == c.evs[i]
      here(x) == { ToString(<<i, ev.op, ev.via, y>>) : y \in x }
      nx == S!Next(st, ev, n)
      n2 == IF ev.op = "exit" THEN nf + 1 ELSE nf
      bad == here(ViewDiff(nx, ev, n2))
             \union (IF ev.op = "exit" THEN here(FileDiff(c, st, c.files[nf]))
                     ELSE IF nx.ph = "stream" /\ ev.op \in {"grains", "seggrains", "enter"}
                     THEN here(GrainsOf(c, nx, Decode(SubSeq(c.files[nf], 1, ev.pos), TRUE, <<>>), FALSE)) ELSE {})
  IN bad \union Run(c, nx, i + 1, n2)
Run(c, st, i, nf) ==
  IF i > Len(c.evs) THEN {}
  ELSE LET ev == c.evs[i]
           here(x) == { ToString(<<i, ev.op, ev.via, y>>) : y \in x }
       IN IF ev.res \notin S!Allowed(st, ev) THEN here({ToString(<<"result", ev.res, S!Allowed(st, ev)>>)})
          ELSE IF ~S!SegsOk(st, ev) THEN here({ToString(<<"segments", [j \in 1..Len(ev.segs) |-> ev.segs[j].lid]>>)})
          ELSE LET ns == S!Taken(st, ev) IN
               IF Cardinality(ns) > 1 /\ \E n \in ns : After(c, st, i, nf, n) = {} THEN {}
               ELSE After(c, st, i, nf, Len(SubSeq(ev.gs, 1, S!MaxOf(ns))))
CaseVerdict(c) == Run(c, S!Start, 1, 1)
=============================================================================
