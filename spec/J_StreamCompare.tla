-------------------------- MODULE J_StreamCompare ---------------------------
(* C17: recorded comparisons of streams of grains.  grains (all the grains that occur), sa, sb (the streams, as places  *)
(*   in grains), enda, endb (whether they end), opts, last, match, len, keys, truths (<<key, truth>>..), failing, ta, tb,   *)
(*   named (the entry the message names, if any).                                                                           *)
EXTENDS Judge, GrainCompare
S == INSTANCE StreamCompare
CaseVerdict(c) ==
  IF c.res # "ok" THEN {c.res}
  ELSE
  LET la == IF c.enda THEN Len(c.sa) ELSE S!Endless
      lb == IF c.endb THEN Len(c.sb) ELSE S!Endless
      m == IF Len(c.sa) > Len(c.sb) THEN Len(c.sa) ELSE Len(c.sb)
      same(i) == Matches(c.grains[c.sa[i]], c.grains[c.sb[i]], c.opts)
      f == S!First(la, lb, same, m)
      n == IF la = S!Endless THEN lb ELSE IF lb = S!Endless THEN la ELSE IF la < lb THEN la ELSE lb
      k == S!Compared(la, lb, f, n)
      keys == { i - 1 : i \in S!Kept(la, lb, f, n, c.last) }
      say(what, got, want) == IF got # want THEN {what \o " " \o ToString(got) \o " not " \o ToString(want)} ELSE {}
  IN say("match", c.match, f = 0) \union say("length", c.len, k) \union say("results for", { c.keys[i] : i \in DOMAIN c.keys }, keys)
     \union say("taken of a", c.ta, S!Taken(la, f, n)) \union say("taken of b", c.tb, S!Taken(lb, f, n))
     \union say("failing", { c.failing[i] : i \in DOMAIN c.failing }, IF f = 0 THEN {} ELSE {f - 1})
     \union say("results once", Len(c.keys), Cardinality(keys))
     \union { ToString(<<"result", c.truths[i]>>) : i \in { i \in DOMAIN c.truths : c.truths[i][2] # (IF c.truths[i][1] = f - 1 /\ f # 0 THEN "FALSE" ELSE "TRUE") } }
     \union (IF c.named # <<>> /\ f # 0 THEN say("names entry", c.named[1], f - 1) ELSE {})
=============================================================================
