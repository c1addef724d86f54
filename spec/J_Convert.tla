------------------------------ MODULE J_Convert -----------------------------
(* C15.  case: from, to, w, h, ca, cb (components before and after), a, a2 (source bytes before, after), b (result), *)
(* res, meta: [m1, m2] (source's metadata before and after equal), kept: pairs <<name, before, after>>,              *)
(* same: the same object came back (asformat), kind: "convert" or "asformat"                                        *)
EXTENDS Judge, Convert, FiniteSets
Body(c) ==
  (IF c.a # c.a2 \/ ~c.still THEN {"the source changed"} ELSE {})
  \union { k[1] \o " was " \o k[2] \o ", is " \o k[3] : k \in { c.kept[j] : j \in { j \in 1..Len(c.kept) : c.kept[j][2] # c.kept[j][3] } } }
  \union (IF c.same # (c.from = c.to /\ c.kind = "asformat") THEN {"same grain " \o ToString(c.same)} ELSE {})
  \union (IF ~c.same /\ c.shares THEN {"result shares the source's data"} ELSE {})
  \union (IF ~c.flow THEN {"flow"} ELSE {})
  \union (IF c.fmt # c.to THEN {"format " \o c.fmt} ELSE {})
  \union (IF c.from = c.to THEN (IF c.b # c.a THEN {"data of a grain already in the format"} ELSE {}) \union (IF c.ca # c.cb THEN {"components"} ELSE {})
          ELSE IF ~Describes(c.to, c.w, c.h, c.cb) THEN {"components " \o ToString(c.cb)}
          ELSE IF Len(c.b) # Total(c.cb) THEN {"length of the data"}
          ELSE IF ~InRange(c.to, c.cb, c.b, c.w, c.h) THEN {"samples out of range"}
          ELSE LET bad == Wrong(c.from, c.to, c.w, c.h, c.ca, c.cb, c.a, c.b)
               IN IF bad = {} THEN {} ELSE LET t == CHOOSE t \in bad : TRUE
                                           IN {"samples " \o ToString(t) \o " (and " \o ToString(Cardinality(bad) - 1) \o " more): " \o ToString(Sample(c.to, c.cb, c.b, t[1], t[2], t[3]))})
CaseVerdict(c) ==
  IF c.from \notin Convertible \/ c.to \notin Convertible
  THEN IF c.from # c.to /\ c.res # "NotImplementedError" THEN {"result " \o c.res \o " for formats without a conversion"} ELSE {}
  ELSE IF c.res # "ok" THEN {"result " \o c.res} ELSE Body(c)
=============================================================================
