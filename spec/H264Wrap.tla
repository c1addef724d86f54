------------------------------ MODULE H264Wrap ------------------------------
(* An H.264 byte stream wrapped picture by picture.  c: bytes, start, rate, duration, size (origin and coded width and     *)
(* height: the template's), t (its other attributes), upto, grains: each from, len, units, key ("none"), ts, sync, rate,   *)
(* duration, size, attrs; end, apart, kept                                                                                 *)
EXTENDS Integers, Sequences, TLC
INSTANCE WrapTime WITH NS <- <<1, <<2560, 2476, 59>>>>        \* 10^9
H == INSTANCE H264 WITH BigOf <- ZOf, BigMul <- ZMul, BigAdd <- ZAdd
SameRatio(x, y) == ZMul(x[1], y[2]) = ZMul(x[2], y[1])
Wrapped(c) ==
  LET F == H!Pictures(c.bytes, H!NoSets, 0)
      n == IF c.upto < Len(F.frames) THEN c.upto ELSE Len(F.frames)
      info == IF F.frames = <<>> THEN <<>> ELSE F.frames[1].info
      told == info # <<>> /\ info[1].rate # <<>>
      rate == IF told THEN info[1].rate[1] ELSE c.rate
      dur == IF told THEN <<rate[2], rate[1]>> ELSE c.duration
      size == IF info = <<>> THEN c.size ELSE <<info[1].w, info[1].h, info[1].cw, info[1].ch>>
      starts == { FirstFrom(Span(m, rate), rate) : m \in Nearest(c.start, rate) }
      G == c.grains
      bad(i, k) == LET g == G[i]
                       m == "grain " \o ToString(i)
                       f == F.frames[i]
                   IN IF i > Len(F.frames) THEN {m \o " too many"}
                      ELSE (IF <<g.from, g.len>> = <<f.from, f.len>> THEN {} ELSE {m \o " data"})
                      \union (IF g.units = f.units THEN {} ELSE {m \o " unit offsets"})
                      \union (IF g.key = (IF f.info = <<>> THEN "none" ELSE IF f.info[1].key THEN "yes" ELSE "no") THEN {} ELSE {m \o " key frame flag"})
                      \union (IF g.ts = Span(ZAdd(k, ZOf(i - 1)), rate) THEN {} ELSE {m \o " timestamp"})
                      \union (IF g.sync = g.ts THEN {} ELSE {m \o " sync timestamp"})
                      \union (IF g.size = size THEN {} ELSE {m \o " picture size"})
                      \union (IF SameRatio(g.rate, rate) /\ SameRatio(g.duration, dur) THEN {} ELSE {m \o " rate"})
                      \union { m \o " " \o a : a \in { a \in DOMAIN c.t : g.attrs[a] # c.t[a] } }
      all(k) == UNION { bad(i, k) : i \in 1..Len(G) }
  IN (IF Len(G) = n THEN {} ELSE {ToString(Len(G)) \o " grains instead of " \o ToString(n)})
     \union (IF c.end = (IF n < c.upto THEN F.end ELSE "asked") THEN {} ELSE {"ended with " \o c.end})
     \union (IF c.apart THEN {} ELSE {"grains share state"})
     \union (IF c.kept THEN {} ELSE {"template changed"})
     \union (IF G = <<>> \/ \E k \in starts : all(k) = {} THEN {} ELSE all(CHOOSE k \in starts : TRUE))
=============================================================================
