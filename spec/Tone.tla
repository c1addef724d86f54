-------------------------------- MODULE Tone --------------------------------
(* C20.  The one signal a tone generator's grains are windows of: sample number n (from the beginning of time) of every  *)
(* channel is sin(2 pi f n / rate), scaled by the volume, in the format's full scale, to the nearest and within range.   *)
(* The sine itself is given as a table of its phases: Sine[k] for 2 pi k g / rate, in units of 2^-48, g = gcd(f, rate).   *)
EXTENDS Integers, Sequences, Formats
CONSTANT NS
INSTANCE Big
One == ZOf(1)
Two == ZOf(2)
Number(x, srate) == LET P == NS IN ZFloor(ZAdd(ZMul(ZMul(x, ZOf(srate)), Two), P), ZMul(P, Two))     \* the sample nearest to the time x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
ZMod(a, b) == ZSub(a, ZMul(ZFloor(a, b), b))
Phase(n, f, rate) == ZInt(ZMod(ZMul(n, ZOf(f % rate)), ZOf(rate)))         \* in parts of a turn: 0 .. rate - 1
After(p, i, f, rate) == (p + ((f % rate) * i)) % rate
(* bits of full scale; floating point is looked at in that many bits *)
Bits(fmt) == CASE fmt \in {"S16_PLANES", "S16_PAIRS", "S16_INTERLEAVED"} -> 16
               [] fmt \in {"S24_PLANES", "S24_PAIRS", "S24_INTERLEAVED"} -> 24
               [] fmt \in {"S32_PLANES", "S32_PAIRS", "S32_INTERLEAVED"} -> 32
               [] fmt \in {"FLOAT_PLANES", "FLOAT_PAIRS", "FLOAT_INTERLEAVED"} -> 20
               [] OTHER -> 31
P2(k) == Z(1, NPow(<<2>>, k))
Unit == P2(48)
(* how far from a half rounding may go either way: the arithmetic of the code is floating point *)
Slack(fmt) == IF Audio[fmt].type = "int" THEN IF Bits(fmt) = 32 THEN 8 ELSE 16 ELSE 3                     \* 2 to the minus that
(* whether v can be the sample of sine s (units of 2^-48) at volume num/den: within half a step, or the end of the range  *)
Fits(v, s, num, den, fmt) ==
  LET b == Bits(fmt)
      d == ZMul(ZOf(den), Unit)
      x == ZMul(ZMul(s, ZOf(num)), P2(b))                                  \* twice the exact value, over d
      y == ZMul(ZMul(ZOf(v), d), Two)
      e == ZAdd(d, ZMul(ZOf(2 * den), P2(48 - Slack(fmt))))
      int == Audio[fmt].type = "int"
      top == IF b = 32 THEN 2147483647 ELSE 2^(b - 1) - 1
      low == IF b = 32 THEN -2147483647 ELSE -(2^(b - 1))                   \* (in 32 bits the last two are told as one)
  IN /\ int => v >= low /\ v <= top
     /\ (int /\ v = low) \/ ZCmp(ZSub(y, x), e) <= 0
     /\ (int /\ v = top) \/ ZCmp(ZSub(x, y), e) <= 0
=============================================================================
