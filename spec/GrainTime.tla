----------------------------- MODULE GrainTime ------------------------------
(* The time a grain covers.  Times are integers (ns in the implementation, NS of them to a second), rates          *)
(* <<numerator, denominator>>, all of Big.                                                                          *)
EXTENDS Big
CONSTANT NS
One == ZOf(1)
Zero == ZOf(0)
(* k periods of the rate, cut to whole time units *)
Span(k, rate) == ZTrunc(ZMul(ZMul(k, rate[2]), NS), rate[1])
Video == {"video", "coded_video"}
Audio == {"audio", "coded_audio"}
(* grain: type, ts, rate, samples, srate, toff (<<>> or <<offset>>) *)
HasRate(r) == ZSgn(r[1]) > 0
MediaRate(g) == IF g.type \in Video THEN IF HasRate(g.rate) THEN <<g.rate>> ELSE <<>>
                ELSE IF g.type \in Audio THEN IF ZSgn(g.srate) > 0 THEN << <<g.srate, One>> >> ELSE <<>>
                ELSE <<>>
Undefined(g) == g.type \in Audio /\ MediaRate(g) = <<>>          \* no time of the last sample
Final(g) == IF g.type \in Audio THEN ZAdd(g.ts, Span(ZSub(g.samples, One), MediaRate(g)[1])) ELSE g.ts
Shift(g) == IF g.type = "coded_video" /\ g.toff # <<>> /\ MediaRate(g) # <<>> THEN Span(g.toff[1], g.rate) ELSE Zero
(* ranges: <<start, end, includes>> with start, end <<>> (unbounded) or <<time>>, includes <<BOOLEAN, BOOLEAN>>; or "empty" *)
Empty == <<"empty">>
Range(s, e, inc) == IF s # <<>> /\ e # <<>> /\ (ZCmp(s[1], e[1]) > 0 \/ (ZCmp(s[1], e[1]) = 0 /\ inc # <<TRUE, TRUE>>)) THEN Empty
                    ELSE IF s = <<>> /\ e = <<>> THEN <<s, e, <<TRUE, TRUE>>>> ELSE <<s, e, inc>>
Origin(g) == Range(<<g.ts>>, <<Final(g)>>, <<TRUE, TRUE>>)
Presentation(g) == Range(<<ZAdd(g.ts, Shift(g))>>, <<ZAdd(Final(g), Shift(g))>>, <<TRUE, TRUE>>)
(* the counts a time may be rounded to: no further than half a period away, up to one time unit *)
Nearest(x, r) ==
  LET P == ZMul(r[2], NS)                                         \* period times rate numerator
      k == ZFloor(ZMul(x, r[1]), P)
      far(c) == ZAbs(ZSub(ZMul(x, r[1]), ZMul(c, P)))
  IN { c \in {k, ZAdd(k, One)} : ZCmp(ZMul(ZOf(2), far(c)), ZAdd(P, ZMul(ZOf(2), r[1]))) <= 0 }
NormTime(g, x) == IF MediaRate(g) = <<>> THEN {x} ELSE { Span(k, MediaRate(g)[1]) : k \in Nearest(x, MediaRate(g)[1]) }
(* a normalised range starts with the first and ends before the count after the last it includes *)
Ends(x, r, more) == IF x = <<>> THEN {<<>>} ELSE { <<Span(IF more THEN ZAdd(k, One) ELSE k, r)>> : k \in Nearest(x[1], r) }
NormRange(g, R) ==
  IF MediaRate(g) = <<>> THEN {R}
  ELSE IF R = Empty THEN {Empty}
  ELSE { Range(s, e, <<TRUE, FALSE>>) : s \in Ends(R[1], MediaRate(g)[1], ~R[3][1]), e \in Ends(R[2], MediaRate(g)[1], R[3][2]) }
=============================================================================
