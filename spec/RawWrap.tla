------------------------------ MODULE RawWrap -------------------------------
(* Raw essence wrapped frame by frame.  c: total (bytes of input), size (of a frame), t (the template's attributes), start, *)
(* rate, upto (grains asked for), grains: each len, same (its data is the input at that place), used (input consumed when  *)
(* it came, -1 unknown), ts, sync, attrs (the others); end, apart, kept                                                    *)
EXTENDS Integers, Sequences, TLC
INSTANCE WrapTime WITH NS <- <<1, <<2560, 2476, 59>>>>        \* 10^9
Lens(total, size) == [i \in 1..((total + size - 1) \div size) |-> IF i * size <= total THEN size ELSE total - ((i - 1) * size)]
Raw(c) ==
  LET L == Lens(c.total, c.size)
      want(i) == IF i <= Len(L) THEN L[i] ELSE 0
      G == c.grains
      k == IF c.upto < Len(L) THEN c.upto ELSE Len(L)              \* how many were asked for
      bad(i) == LET g == G[i]
                    n == "grain " \o ToString(i)
                IN (IF i <= Len(L) /\ g.len = L[i] THEN {} ELSE {n \o " length"})
                   \union (IF g.same THEN {} ELSE {n \o " data"})
                   \union (IF g.used = -1 \/ g.used <= i * c.size THEN {} ELSE {n \o " read ahead"})
                   \union (IF g.ts = OnGrid(c.start, c.rate, i - 1) THEN {} ELSE {n \o " timestamp"})
                   \union (IF g.sync = g.ts THEN {} ELSE {n \o " sync timestamp"})
                   \union { n \o " " \o a : a \in { a \in DOMAIN c.t : g.attrs[a] # c.t[a] } }
  IN (IF Len(G) = k THEN {} ELSE {ToString(Len(G)) \o " grains instead of " \o ToString(k)})
     \union (IF c.end = "end" THEN {} ELSE {"ended with " \o c.end})
     \union (IF c.apart THEN {} ELSE {"grains share state"})
     \union (IF c.kept THEN {} ELSE {"template changed"})
     \union UNION { bad(i) : i \in 1..Len(G) }
=============================================================================
