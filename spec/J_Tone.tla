------------------------------- MODULE J_Tone -------------------------------
(* case: f (format), channels, samples, srate, freq, num/den (volume), sine (table), grains: each ts, meta (as asked      *)
(* for), bytes (length), flat: the samples one after another (zero: whether every byte is zero)                           *)
EXTENDS Judge
INSTANCE Tone WITH NS <- <<1, <<2560, 2476, 59>>>>        \* 10^9
Grain(c, g, j) ==
  LET A == Audio[c.f]
      n == Number(g.ts, c.srate)
      p == Phase(n, c.freq, c.srate)
      by == Gcd(c.freq % c.srate, c.srate)
      wrong == { i \in 0..(c.samples - 1) :
                   LET v == g.flat[AudioAt(A, c.channels, c.samples, 0, i) + 1]
                   IN \/ \E ch \in 1..(c.channels - 1) : g.flat[AudioAt(A, c.channels, c.samples, ch, i) + 1] # v
                      \/ ~Fits(v, c.sine[(After(p, i, c.freq, c.srate) \div by) + 1], c.num, c.den, c.f) }
  IN IF g.bytes # AudioBytes(A, c.channels, c.samples) THEN {"grain " \o ToString(j) \o " has " \o ToString(g.bytes) \o " bytes"}
     ELSE (IF g.meta THEN {} ELSE {"grain " \o ToString(j) \o " metadata"})
          \union (IF c.freq # 0 \/ g.zero THEN {} ELSE {"grain " \o ToString(j) \o " not silent"})
          \union (IF ZMod(n, ZOf(c.samples)) = ZOf(0) THEN {} ELSE {"grain " \o ToString(j) \o " does not start where one starts"})
          \union { "grain " \o ToString(j) \o " sample " \o ToString(i) : i \in wrong }
CaseVerdict(c) == CASE c.kind = "failed" -> {c.res}
                    [] c.kind = "refused" -> (IF c.res = "!ValueError" THEN {} ELSE {"accepted"})
                    [] OTHER -> UNION { Grain(c, c.grains[j], j) : j \in 1..Len(c.grains) }
=============================================================================
