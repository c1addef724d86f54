---------------------------- MODULE J_GrainTime -----------------------------
(* C12.  case: g (integers as [sign, digits]), obs: final, origin, pts, pfinal, prange, media, norm: [value, result] for   *)
(* times, normr for ranges; an observation is <<>> when the call raised, else <<value>>                                    *)
EXTENDS Judge
INSTANCE GrainTime WITH NS <- <<1, <<2560, 2476, 59>>>>        \* 10^9
CaseVerdict(c) ==
  LET g == c.g
      o == c.obs
      is(name, w) == IF o[name] = <<w>> THEN {} ELSE {name}
  IN is("media", MediaRate(g)) \union is("ts", g.ts)
     \union (IF Undefined(g) THEN {} ELSE is("final", Final(g)) \union is("origin", Origin(g)) \union is("pfinal", ZAdd(Final(g), Shift(g)))
                                          \union is("prange", Presentation(g)))
     \union is("pts", ZAdd(g.ts, Shift(g)))
     \union { "normalised time " \o ToString(k) : k \in { k \in 1..Len(c.norm) : ~(Len(c.norm[k][2]) = 1 /\ c.norm[k][2][1] \in NormTime(g, c.norm[k][1])) } }
     \union { "normalised range " \o ToString(k) : k \in { k \in 1..Len(c.normr) : ~(Len(c.normr[k][2]) = 1 /\ c.normr[k][2][1] \in NormRange(g, c.normr[k][1])) } }
=============================================================================
