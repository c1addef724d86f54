-------------------------------- MODULE Psnr --------------------------------
(* The ratio of peak signal to noise between two pictures or sounds, to a few millionths of a decibel: for each view of the *)
(* samples 10 log10 (max^2 n / sum of squared differences).  The logarithm (to the base two, in units of 2^-20) is found    *)
(* digit by digit, squaring a number of 48 bits.                                                                            *)
EXTENDS NumpyViews, Big
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
(* samples of w bytes, least significant first *)
RECURSIVE Unsigned(_)
Unsigned(v) == IF v = <<>> THEN <<>> ELSE NTrim(NAdd(NOf(Head(v)), NMul(NOf(256), Unsigned(Tail(v)))))
Twos(v) == LET u == Z(1, Unsigned(v)) IN IF v[Len(v)] < 128 THEN u ELSE ZSub(u, Z(1, NPow(NOf(256), Len(v))))
(* floating point: in units of 1/65536, of which all are multiples here *)
Shift(m, e) == IF e >= 0 THEN m * Pow2(e) ELSE m \div Pow2(-e)
Floating(v) ==
  LET n == Len(v)
      top == v[n] % 128
      e == IF n = 4 THEN top * 2 + v[3] \div 128 - 127 ELSE top * 16 + v[7] \div 16 - 1023
      m == IF n = 4 THEN 8388608 + (v[3] % 128) * 65536 + v[2] * 256 + v[1] ELSE 1048576 + (v[7] % 16) * 65536 + v[6] * 256 + v[5]
      x == IF top = 0 THEN 0 ELSE Shift(m, e + 16 - (IF n = 4 THEN 23 ELSE 20))
  IN ZOf(IF v[n] >= 128 THEN -x ELSE x)
Sample(t, v) == CASE t[1] = "u" -> Z(1, Unsigned(v)) [] t[1] = "i" -> Twos(v) [] OTHER -> Floating(v)
Samples(L, b, i) == LET d == Dump(L, b, i) \o <<>>
                        n == Type(L)[2]
                    IN [k \in 1..(Len(d) \div n) |-> Sample(Type(L), SubSeq(d, (k - 1) * n + 1, k * n))] \o <<>>
(* the largest value there is (of floating point, in the same units) *)
Peak(L) == IF L.video THEN ZSub(Z(1, NPow(NOf(2), Video[L.f].bits)), ZOf(1))
           ELSE IF Type(L)[1] = "f" THEN ZOf(65536) ELSE Z(1, NPow(NOf(2), 8 * Type(L)[2] - 1))
Unit(L) == IF Type(L)[1] = "f" THEN ZOf(65536) ELSE ZOf(1)
RECURSIVE Squares(_, _, _, _)
Squares(x, y, i, j) == IF i > j THEN ZOf(0)
                       ELSE IF i = j THEN (LET d == ZSub(x[i], y[i]) IN ZMul(d, d))
                       ELSE LET m == (i + j) \div 2 IN ZAdd(Squares(x, y, i, m), Squares(x, y, m + 1, j))
(* log2 of a positive number below 2^72, times 2^20, by the upper 48 bits *)
Wide == 6
Places == 4
RECURSIVE Raise(_, _)
Raise(m, k) == IF m[Wide] >= 2048 THEN <<m, k>> ELSE Raise(NAdd(m, m), k + 1)
RECURSIVE Digits(_, _, _)
Digits(m, t, acc) ==
  IF t = 0 THEN acc
  ELSE LET y == NMul(m, m)
           one == y[2 * Places] >= 2048
       IN Digits(SubSeq(IF one THEN y ELSE NAdd(y, y), Places + 1, 2 * Places), t - 1, 2 * acc + (IF one THEN 1 ELSE 0))
Log2(n) == LET p == [i \in 1..Wide |-> NDig(n, i)] \o <<>>
               r == Raise(p, 0)
           IN Digits(SubSeq(r[1], Wide - Places + 1, Wide), 20, 71 - r[2])
(* the ratio in units of 2^-20 octaves, from above zero noise *)
Octaves(max, s, n) == Log2(ZMul(ZMul(max, max), ZOf(n))[2]) - Log2(s[2])
(* v millionths of a decibel are o such units, within some *)
IsRatio(v, o, some) == LET d == ZSub(ZMul(ZOf(v), ZOf(1048576)), ZMul(ZOf(o), ZOf(3010300)))
                       IN ZCmp(ZAbs(d), ZMul(ZOf(some), ZOf(1048576))) <= 0
=============================================================================
