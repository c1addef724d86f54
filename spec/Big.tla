-------------------------------- MODULE Big ---------------------------------
(* Integers beyond TLC's: naturals are little-endian digits of base 4096 without leading zeros, integers <<sign, natural>> *)
(* with sign -1, 0 or 1.                                                                                                    *)
EXTENDS Integers, Sequences
BB == 4096
RECURSIVE NTrim(_)
NTrim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN NTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a
NDig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE NOf(_)
NOf(n) == IF n = 0 THEN <<>> ELSE <<n % BB>> \o NOf(n \div BB)
RECURSIVE NAddC(_, _, _, _)
NAddC(a, b, i, c) == IF i > Len(a) /\ i > Len(b) /\ c = 0 THEN <<>>
                     ELSE LET s == NDig(a, i) + NDig(b, i) + c IN <<s % BB>> \o NAddC(a, b, i + 1, s \div BB)
NAdd(a, b) == NAddC(a, b, 1, 0)
RECURSIVE NSubC(_, _, _, _)
NSubC(a, b, i, c) == IF i > Len(a) THEN <<>>
                     ELSE LET s == NDig(a, i) - NDig(b, i) - c IN <<s % BB>> \o NSubC(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
NSub(a, b) == NTrim(NSubC(a, b, 1, 0))                         \* a >= b
RECURSIVE NCmpAt(_, _, _)
NCmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN IF a[i] < b[i] THEN -1 ELSE 1 ELSE NCmpAt(a, b, i - 1)
NCmp(a, b) == IF Len(a) # Len(b) THEN IF Len(a) < Len(b) THEN -1 ELSE 1 ELSE NCmpAt(a, b, Len(a))
RECURSIVE NMulD(_, _, _, _)
NMulD(a, d, i, c) == IF i > Len(a) /\ c = 0 THEN <<>> ELSE LET s == NDig(a, i) * d + c IN <<s % BB>> \o NMulD(a, d, i + 1, s \div BB)
RECURSIVE NMul(_, _)
NMul(a, b) == IF b = <<>> \/ a = <<>> THEN <<>>
              ELSE LET r == NMul(a, Tail(b)) IN NTrim(NAdd(NMulD(a, Head(b), 1, 0), IF r = <<>> THEN <<>> ELSE <<0>> \o r))
RECURSIVE NDigit(_, _, _, _)
NDigit(r, b, lo, hi) == IF lo = hi THEN lo                     \* the largest d with d * b <= r
                        ELSE LET m == (lo + hi + 1) \div 2
                             IN IF NCmp(NTrim(NMulD(b, m, 1, 0)), r) <= 0 THEN NDigit(r, b, m, hi) ELSE NDigit(r, b, lo, m - 1)
RECURSIVE NDivAt(_, _, _, _)
NDivAt(a, b, i, r) == IF i = 0 THEN <<>>
                      ELSE LET r1 == NTrim(<<a[i]>> \o r)
                               d == NDigit(r1, b, 0, BB - 1)
                           IN NDivAt(a, b, i - 1, NSub(r1, NTrim(NMulD(b, d, 1, 0)))) \o <<d>>
NDiv(a, b) == NTrim(NDivAt(a, b, Len(a), <<>>))                \* rounded down
NMod(a, b) == NSub(a, NMul(NDiv(a, b), b))
(* integers *)
Z(s, n) == IF n = <<>> THEN <<0, <<>>>> ELSE <<s, n>>
ZOf(k) == IF k < 0 THEN Z(-1, NOf(-k)) ELSE Z(1, NOf(k))
ZNeg(x) == <<-x[1], x[2]>>
ZAbs(x) == Z(1, x[2])
ZAdd(x, y) == IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
              ELSE IF x[1] = y[1] THEN <<x[1], NAdd(x[2], y[2])>>
              ELSE IF NCmp(x[2], y[2]) >= 0 THEN Z(x[1], NSub(x[2], y[2])) ELSE Z(y[1], NSub(y[2], x[2]))
ZSub(x, y) == ZAdd(x, ZNeg(y))
ZMul(x, y) == Z(x[1] * y[1], NMul(x[2], y[2]))
ZSgn(x) == x[1]
ZCmp(x, y) == ZSgn(ZSub(x, y))
ZTrunc(x, y) == Z(x[1] * y[1], NDiv(x[2], y[2]))               \* quotient rounded towards zero
ZFloor(x, y) == IF x[1] * y[1] >= 0 THEN ZTrunc(x, y)          \* rounded down
                ELSE IF NMod(x[2], y[2]) = <<>> THEN ZTrunc(x, y) ELSE ZSub(ZTrunc(x, y), ZOf(1))
RECURSIVE NInt(_)
NInt(a) == IF a = <<>> THEN 0 ELSE Head(a) + BB * NInt(Tail(a))
ZInt(x) == x[1] * NInt(x[2])                                   \* only when small
RECURSIVE NPow(_, _)
NPow(a, k) == IF k = 0 THEN <<1>> ELSE NMul(a, NPow(a, k - 1))
=============================================================================
