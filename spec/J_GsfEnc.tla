------------------------------ MODULE J_GsfEnc ------------------------------
(* C02: bytes really written for a document against the bytes the format prescribes.                          *)
(* case: doc, onepass (counts cannot be filled in), group (dumped all at once), ok, bytes, err                *)
EXTENDS Judge, Gsf
FirstDiff(a, b) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                       d == {i \in 1..n : a[i] # b[i]}
                   IN IF d = {} THEN n + 1 ELSE CHOOSE i \in d : \A j \in d : i <= j
CaseVerdict(c) ==
  IF ~c.ok THEN {ToString(<<"encoding raised", c.err>>)}
  ELSE LET doc == IF c.group THEN [c.doc EXCEPT !.grains = GroupBySegment(c.doc.segs, c.doc.grains)] ELSE c.doc
           want == Encode(doc, c.onepass)
       IN IF want = c.bytes THEN {}
          ELSE {ToString(<<"bytes differ at offset", FirstDiff(want, c.bytes) - 1, "lengths", Len(want), Len(c.bytes)>>)}
=============================================================================
