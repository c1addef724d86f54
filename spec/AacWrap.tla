------------------------------ MODULE AacWrap -------------------------------
(* An ADTS stream wrapped frame by frame.  c: bytes, start, samples (the template's, 0 none), t (its other attributes),    *)
(* upto, grains: each from (where in the input its data is), len, used, ts, sync, channels, srate, samples, rate, duration, *)
(* attrs; end, apart, kept                                                                                                 *)
EXTENDS Integers, Sequences, TLC, Adts
INSTANCE Cutting WITH Header <- AacHeader, Size <- FrameLength, Valid <- AacValid
INSTANCE WrapTime WITH NS <- <<1, <<2560, 2476, 59>>>>        \* 10^9
Same(r, n, d) == ZMul(r[1], ZOf(d)) = ZMul(r[2], ZOf(n))
Wrapped(c) ==
  LET F == Cut(c.bytes, 0)
      n == IF c.upto < Len(F.frames) THEN c.upto ELSE Len(F.frames)
      first == SubSeq(c.bytes, 1, AacHeader)
      sr == SampleRate(first)
      samples == IF c.samples = 0 THEN DefaultSamples ELSE c.samples
      media == <<ZOf(sr), One>>
      rate == <<ZOf(sr), ZOf(samples)>>
      starts == { FirstFrom(Span(m, media), rate) : m \in Nearest(c.start, media) }
      G == c.grains
      bad(i, k) == LET g == G[i]
                       m == "grain " \o ToString(i)
                   IN (IF i <= Len(F.frames) /\ <<g.from, g.len>> = F.frames[i] THEN {} ELSE {m \o " data"})
                      \union (IF g.used = -1 \/ g.used <= g.from + g.len THEN {} ELSE {m \o " read ahead"})
                      \union (IF g.ts = Span(ZAdd(k, ZOf(i - 1)), rate) THEN {} ELSE {m \o " timestamp"})
                      \union (IF g.sync = g.ts THEN {} ELSE {m \o " sync timestamp"})
                      \union (IF <<g.channels, g.srate, g.samples>> = <<ChannelCount(first), sr, samples>> THEN {} ELSE {m \o " audio"})
                      \union (IF Same(g.rate, sr, samples) /\ Same(g.duration, samples, sr) THEN {} ELSE {m \o " rate"})
                      \union { m \o " " \o a : a \in { a \in DOMAIN c.t : g.attrs[a] # c.t[a] } }
      all(k) == UNION { bad(i, k) : i \in 1..Len(G) }
  IN (IF Len(G) = n THEN {} ELSE {ToString(Len(G)) \o " grains instead of " \o ToString(n)})
     \union (IF c.end = (IF n < c.upto THEN F.end ELSE "asked") THEN {} ELSE {"ended with " \o c.end})
     \union (IF c.apart THEN {} ELSE {"grains share state"})
     \union (IF c.kept THEN {} ELSE {"template changed"})
     \union (IF G = <<>> \/ \E k \in starts : all(k) = {} THEN {} ELSE all(CHOOSE k \in starts : TRUE))
=============================================================================
