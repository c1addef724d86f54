------------------------------- MODULE Bytes -------------------------------
(* Byte sequences, little-endian numbers (limbs: base 256, least significant first, no trailing zeros),    *)
(* text as UTF-8 byte sequences.  TLC's integers are 32 bit, so 48/64 bit fields stay limb sequences.       *)
EXTENDS Integers, Sequences, SequencesExt

Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE Trim(_)
Trim(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Fits(l, w) == Len(l) <= w
Pad(l, w) == IF Len(l) >= w THEN SubSeq(l, 1, w) ELSE l \o Zeros(w - Len(l))        \* unsigned, w octets
RECURSIVE LE(_, _)
LE(n, w) == IF w = 0 THEN <<>> ELSE <<n % 256>> \o LE(n \div 256, w - 1)            \* from a TLC integer
RECURSIVE Limbs(_)
Limbs(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o Limbs(n \div 256)
Huge == 2147483647
(* a limb number as a TLC integer, saturating at 2^31-1 *)
ToInt(l) == LET t == Trim(l) IN
            CASE Len(t) = 0 -> 0
              [] Len(t) = 1 -> t[1]
              [] Len(t) = 2 -> t[1] + 256 * t[2]
              [] Len(t) = 3 -> t[1] + 256 * t[2] + 65536 * t[3]
              [] Len(t) = 4 /\ t[4] < 128 -> t[1] + 256 * t[2] + 65536 * t[3] + 16777216 * t[4]
              [] OTHER -> Huge

(* comparison, addition, subtraction, multiplication of limb numbers *)
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpAt(a, b, i - 1)
Cmp(a0, b0) == LET a == Trim(a0) b == Trim(b0) IN
               IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpAt(a, b, Len(a))
At(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE AddC(_, _, _, _)
AddC(a, b, i, c) == IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                    ELSE LET s == At(a, i) + At(b, i) + c IN <<s % 256>> \o AddC(a, b, i + 1, s \div 256)
LAdd(a, b) == Trim(AddC(a, b, 1, 0))
RECURSIVE SubC(_, _, _, _)
SubC(a, b, i, c) == IF i > Len(a) THEN <<>>
                    ELSE LET s == a[i] - At(b, i) - c IN
                         IF s < 0 THEN <<s + 256>> \o SubC(a, b, i + 1, 1) ELSE <<s>> \o SubC(a, b, i + 1, 0)
LSub(a, b) == Trim(SubC(a, b, 1, 0))                     \* requires a >= b
RECURSIVE MulD(_, _, _, _)
MulD(a, d, i, c) == IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE Limbs(c))
                    ELSE LET p == a[i] * d + c IN <<p % 256>> \o MulD(a, d, i + 1, p \div 256)
RECURSIVE MulAt(_, _, _)
MulAt(a, b, i) == IF i > Len(b) THEN <<>>
                  ELSE LET rest == MulAt(a, b, i + 1)
                       IN AddC(MulD(a, b[i], 1, 0), <<0>> \o rest, 1, 0)
LMul(a, b) == Trim(MulAt(Trim(a), Trim(b), 1))

(* two's complement: sign is 1 or -1, magnitude limbs *)
Invert(s) == [i \in 1..Len(s) |-> 255 - s[i]]
TwosComp(sign, l, w) == IF sign >= 0 \/ Trim(l) = <<>> THEN Pad(l, w)
                        ELSE Pad(AddC(Invert(Pad(l, w)), <<1>>, 1, 0), w)
FromTwos(s) == IF s[Len(s)] >= 128 THEN <<-1, Trim(Pad(AddC(Invert(s), <<1>>, 1, 0), Len(s)))>>
               ELSE <<1, Trim(s)>>

(* rationals <<num, den>>; zero numerator or denominator is the null rational, equal to 0 *)
RatNull(r) == Trim(r[1]) = <<>> \/ Trim(r[2]) = <<>>
RatEq(a, b) == IF RatNull(a) \/ RatNull(b) THEN RatNull(a) /\ RatNull(b)
               ELSE LMul(a[1], b[2]) = LMul(b[1], a[2])

(* UTF-8 *)
Cont(s, i) == i <= Len(s) /\ s[i] >= 128 /\ s[i] <= 191
RECURSIVE Utf8From(_, _)
Utf8From(s, i) ==
  IF i > Len(s) THEN TRUE
  ELSE LET b == s[i] IN
    CASE b < 128 -> Utf8From(s, i + 1)
      [] b >= 194 /\ b <= 223 -> Cont(s, i + 1) /\ Utf8From(s, i + 2)
      [] b >= 224 /\ b <= 239 -> /\ Cont(s, i + 1) /\ Cont(s, i + 2)
                                 /\ (b = 224 => s[i + 1] >= 160) /\ (b = 237 => s[i + 1] <= 159)
                                 /\ Utf8From(s, i + 3)
      [] b >= 240 /\ b <= 244 -> /\ Cont(s, i + 1) /\ Cont(s, i + 2) /\ Cont(s, i + 3)
                                 /\ (b = 240 => s[i + 1] >= 144) /\ (b = 244 => s[i + 1] <= 143)
                                 /\ Utf8From(s, i + 4)
      [] OTHER -> FALSE
Utf8(s) == Utf8From(s, 1)
RECURSIVE CutNul(_, _)
CutNul(s, i) == IF i > Len(s) \/ s[i] = 0 THEN SubSeq(s, 1, i - 1) ELSE CutNul(s, i + 1)
UpToNul(s) == CutNul(s, 1)                              \* a FixString ends at the first null
=============================================================================
