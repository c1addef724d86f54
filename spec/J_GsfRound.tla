------------------------------ MODULE J_GsfRound ----------------------------
(* C01: what came back from encoding and decoding a document.                                                  *)
(* case: doc, onepass, group, byseg (the reader returned grains per segment), ok, err, obs (see Gsf.tla)       *)
EXTENDS Judge, Gsf
UtcOf(c) == ToUtc(c.t, c.off)
HeadOf(doc, onepass) ==
  [id |-> doc.id, created |-> UtcOf(doc.created), tags |-> doc.tags,
   segs |-> [i \in 1..Len(doc.segs) |-> [lid |-> doc.segs[i].lid, id |-> doc.segs[i].id, tags |-> doc.segs[i].tags,
                                         flow |-> LastOf(doc.segs[i].flow),
                                         count |-> IF onepass THEN <<-1, <<1>>>>
                                                   ELSE <<1, Limbs(CountOf(doc, doc.segs[i].lid))>>]]]
CaseVerdict(c) ==
  IF ~c.ok THEN {ToString(<<"raised", c.err>>)}
  ELSE IF c.obs.k # "ok" THEN {ToString(<<"decoding failed", c.obs.k, c.obs.det>>)}
  ELSE LET gs == IF c.group \/ c.byseg THEN GroupBySegment(c.doc.segs, c.doc.grains) ELSE c.doc.grains
           got == IF c.byseg THEN GroupBySegment(c.doc.segs, c.obs.grains) ELSE c.obs.grains
       IN HeadDiff(HeadOf(c.doc, c.onepass), c.obs.head) \union GrainsDiff(gs, got)
          \union (IF Len(got) # Len(c.obs.grains) THEN {"grains outside any segment"} ELSE {})
=============================================================================
