--------------------------- MODULE PatternAccess ----------------------------
(* C18.  Which grains a pattern generator has, and which of them each way of asking for grains names.                   *)
(* A generator g: kind "video" (a picture at every multiple of the period of its rate) or "tone" (a grain at every      *)
(* multiple of `samples` of the sampling rate, its rate being srate/samples); gap = 0, or k: a video source that has    *)
(* none of the pictures whose number is one more than a multiple of k.  Times are nanoseconds, numbers are of Big.      *)
EXTENDS Integers, Sequences
CONSTANT NS
INSTANCE Big
One == ZOf(1)
Zero == ZOf(0)
At(n, r) == ZTrunc(ZMul(ZMul(n, r[2]), NS), r[1])                        \* the time of grain number n at rate r
Number(x, r) ==                                                          \* the number whose time is nearest
  LET P == ZMul(r[2], NS) IN ZFloor(ZAdd(ZMul(ZMul(x, r[1]), ZOf(2)), P), ZMul(P, ZOf(2)))
ZMod(a, b) == ZSub(a, ZMul(ZFloor(a, b), b))
There(g, n) == g.gap = 0 \/ ZMod(n, ZOf(g.gap)) # ZMod(One, ZOf(g.gap))

(* the times a grain given for the time x may have; <<>> stands for there being none *)
Sampling(g) == <<ZOf(g.srate), One>>
ToneAt(g, k) == IF ZMod(k, ZOf(g.samples)) = Zero THEN {<<At(k, Sampling(g))>>} ELSE {<<>>}
OfTime(g, x) ==
  IF g.kind = "tone" THEN ToneAt(g, Number(x, Sampling(g)))
  ELSE LET n == Number(x, g.rate)
           t == At(n, g.rate)
       IN IF ~There(g, n) THEN {<<>>} ELSE IF x = t THEN {<<t>>} ELSE {<<>>, <<x>>, <<t>>}      \* between pictures: the nearest, or none
OfCount(g, n) == IF g.kind = "tone" THEN ToneAt(g, n) ELSE IF There(g, n) THEN {<<At(n, g.rate)>>} ELSE {<<>>}
(* a key is a time, a count of the generator's own media units, or a count of units of another rate *)
OfKey(g, k) == CASE k.k = "time" -> OfTime(g, k.x) [] k.k = "count" -> OfCount(g, k.x) [] OTHER -> OfTime(g, At(k.x, k.rate))

(* a range: from, to: <<>> or <<key>>; inc: whether each end is included; rate: <<>> or <<rate>>; skip *)
Pace(g, q) == IF q.rate # <<>> THEN q.rate[1] ELSE g.rate
In(k, r) == CASE k.k = "time" -> Number(k.x, r) [] k.k = "count" -> k.x [] OTHER -> Number(At(k.x, k.rate), r)
FirstOf(g, q) == LET n == In(q.from[1], Pace(g, q)) IN IF q.inc[1] THEN n ELSE ZAdd(n, One)
LastOf(g, q) == LET n == In(q.to[1], Pace(g, q)) IN IF q.inc[2] THEN n ELSE ZSub(n, One)
Within(g, q, n) == q.to = <<>> \/ ZCmp(n, LastOf(g, q)) <= 0
(* of the range's times from the i-th on: the first that has a grain: <<i, its time>>, or <<i>> at the end *)
RECURSIVE Onward(_, _, _)
Onward(g, q, i) ==
  LET n == ZAdd(FirstOf(g, q), ZOf(i * q.skip))
  IN IF ~Within(g, q, n) THEN <<i>>
     ELSE LET o == OfTime(g, At(n, Pace(g, q))) IN IF <<>> \in o THEN Onward(g, q, i + 1) ELSE <<i, (CHOOSE t \in o : TRUE)[1]>>
=============================================================================
