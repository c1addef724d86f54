------------------------------ MODULE J_GsfDec ------------------------------
(* C03, C04 (and the parts of C06 about what is read): what readers made of byte sequences.                    *)
(* case: bytes, heads, gs (tables of observed headers and of observed [lid, g]),                               *)
(*   groups: seq of [cut, conc, ids, obs], obs: seq of [who, k, head (index, 0: none), grains (indices), off,  *)
(*   det, data (data was to be read), grouped (a one-shot reader's dictionary)]; offs: error offsets count      *)
EXTENDS Judge, Gsf
(* '{"type": "", "topic": "", "data": []}' : the payload of an event whose data was not read *)
NoEvent == <<123, 34, 116, 121, 112, 101, 34, 58, 32, 34, 34, 44, 32, 34, 116, 111, 112, 105, 99, 34, 58, 32, 34, 34,
             44, 32, 34, 100, 97, 116, 97, 34, 58, 32, 91, 93, 125>>
Shown(g, data) == IF g.t = "event" /\ (~data \/ g.data = <<>>) THEN [g EXCEPT !.data = NoEvent]
                  ELSE IF ~data THEN [g EXCEPT !.data = <<>>] ELSE g
Seen(gs, data) == [i \in 1..Len(gs) |-> [lid |-> gs[i].lid, g |-> Shown(gs[i].g, data)]]
GotGrains(c, o) == [i \in 1..Len(o.grains) |-> c.gs[o.grains[i]]]
HeadOk(c, o, d) == IF o.head = 0 THEN {"no header"} ELSE HeadDiff(d.head, c.heads[o.head])
(* grouped by segment, segments in the order they are first seen *)
RECURSIVE BySeen(_, _, _)
BySeen(s, i, done) == IF i > Len(s) THEN <<>>
                      ELSE IF s[i].lid \in done THEN BySeen(s, i + 1, done)
                      ELSE SelectSeq(s, LAMBDA x: x.lid = s[i].lid) \o BySeen(s, i + 1, done \union {s[i].lid})
ObsDiff(c, d, o, offs) ==
  LET Want(gs) == IF o.grouped THEN BySeen(Seen(gs, o.data), 1, {}) ELSE Seen(gs, o.data)
      want == Want(d.grains)
      got == GotGrains(c, o)
      diff == GrainsDiff(want, got)
      gd == IF o.grouped /\ o.k # "ok" THEN {}        \* one-shot readers return nothing with an error
            ELSE IF d.k = "ok" /\ d.maybe # <<>> /\ diff # {} /\ Len(got) = Len(want) + 1
            THEN GrainsDiff(Want(d.grains \o d.maybe), got) ELSE diff
  IN CASE d.k = "ok" -> (IF o.k # "ok" THEN {ToString(<<"refused", o.k, o.det>>)} ELSE HeadOk(c, o, d)) \union gd
       [] d.k = "cut" -> (IF o.k = "ok" THEN {"accepted a file cut off inside its header"} ELSE {})
                         \union (IF got # <<>> THEN {"grains from a file without header"} ELSE {})
       [] d.k = "cutlater" -> (IF o.k \in {"ok", "bad"} THEN {} ELSE {ToString(<<"refused", o.k, o.det>>)}) \union gd
       [] d.k = "bad" -> (IF o.k # "bad" THEN {ToString(<<"malformed file", o.k, o.det>>)}
                          ELSE IF offs /\ d.off # -1 /\ d.off # o.off THEN {ToString(<<"offset", d.off, o.off>>)} ELSE {}) \union gd
       [] OTHER -> (IF o.k # d.k THEN {ToString(<<"wanted", d.k, o.k, o.det>>)}
                    ELSE (IF o.det # d.maybe THEN {ToString(<<"details", d.maybe, o.det>>)} ELSE {})
                         \union (IF d.off # -1 /\ o.off # d.off THEN {ToString(<<"offset", d.off, o.off>>)} ELSE {})) \union gd
GroupDiff(c, gr) ==
  LET d == Decode(SubSeq(c.bytes, 1, gr.cut), gr.conc, gr.ids)
  IN UNION { { ToString(<<gr.obs[i].who, gr.cut, x>>) : x \in ObsDiff(c, d, gr.obs[i], gr.offs) } : i \in 1..Len(gr.obs) }
CaseVerdict(c) == UNION { GroupDiff(c, c.groups[i]) : i \in 1..Len(c.groups) }
=============================================================================
