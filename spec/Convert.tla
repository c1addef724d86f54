------------------------------ MODULE Convert -------------------------------
(* Converting pictures between formats: which samples of the result are right.                                       *)
(*   a sample is <<h, l>>: its upper part (all of it up to 16 bits) and, for 32 bits, the lower 16 bits               *)
EXTENDS Formats
Alpha == {"ALPHA_U8", "ALPHA_S16_10BIT", "ALPHA_S16_12BIT", "ALPHA_S16", "ALPHA_S32"}
(* the formats between which every conversion exists *)
Convertible == (DOMAIN Video) \ (Alpha \union {"AYUV", "RGBA", "BGRA", "ARGB", "ABGR"})
Rgb(F) == F.ch = "RGB"
Abs(n) == IF n < 0 THEN 0 - n ELSE n
Pow2(n) == 2 ^ n
(* component i in the order Y U V or R G B is this one of the data *)
Slot(F, i) == IF F.order = "BGR" THEN 4 - i ELSE i
V210Field == [Y |-> <<1, 3, 5, 7, 9, 11>>, U |-> <<0, 4, 8>>, V |-> <<2, 6, 10>>]
V210At(cs, b, i, x, y) ==
  LET n == IF i = 1 THEN 6 ELSE 3
      f == (IF i = 1 THEN V210Field.Y ELSE IF i = 2 THEN V210Field.U ELSE V210Field.V)[(x % n) + 1]
      at == cs[1].offset + y * cs[1].stride + 16 * (x \div n) + 4 * (f \div 3)
  IN CASE f % 3 = 0 -> b[at + 1] + 256 * (b[at + 2] % 4)
       [] f % 3 = 1 -> (b[at + 2] \div 4) + 64 * (b[at + 3] % 16)
       [] OTHER -> (b[at + 3] \div 16) + 16 * (b[at + 4] % 64)
Sample(name, cs, b, i, x, y) ==
  LET F == Video[name]
      at == Addr(F, cs, Slot(F, i), x, y)
  IN IF name = "v210" THEN <<V210At(cs, b, i, x, y), 0>>
     ELSE IF F.bpv = 1 THEN <<b[at + 1], 0>>
     ELSE IF F.bpv = 2 THEN <<b[at + 1] + 256 * b[at + 2], 0>>
     ELSE <<b[at + 3] + 256 * b[at + 4], b[at + 1] + 256 * b[at + 2]>>
Depth(F) == IF F.bits = 32 THEN 16 ELSE F.bits                    \* of the upper part
(* the chroma sample positions of a that make up (x, y) of b *)
Under(A, B, x, y) ==
  LET xs == IF HS(A) = HS(B) THEN {x} ELSE IF HS(A) = 1 THEN {x \div 2} ELSE {2 * x, 2 * x + 1}
      ys == IF VS(A) = VS(B) THEN {y} ELSE IF VS(A) = 1 THEN {y \div 2} ELSE {2 * y, 2 * y + 1}
  IN xs \X ys
RECURSIVE Pile(_, _)
Pile(f, D) == IF D = {} THEN <<0, 0>> ELSE LET d == CHOOSE d \in D : TRUE
                                               s == Pile(f, D \ {d})
                                           IN <<f[d][1] + s[1], f[d][2] + s[2]>>
(* h * 65536 + l within -t .. t *)
Near(h, l, t) == Abs(h) < 1000 /\ Abs(h * 65536 + l) <= t
(* the same kind of sample: sum s of n source samples of depth a (wa: 32 bits), result r of depth b *)
Same(a, b, s, n, r) ==
  IF a = b THEN IF n = 1 THEN r = s 
                                ELSE IF a = 32 THEN Near(n * r[1] - s[1], n * r[2] - s[2], IF n = 2 THEN 1 ELSE 4) ELSE Abs(n * r[1] - s[1]) <= (IF n = 2 THEN 1 ELSE 4)   \* a mean, rounded once or twice
  ELSE LET da == IF a = 32 THEN 16 ELSE a
           db == IF b = 32 THEN 16 ELSE b
           w == db - da                                                   \* of the upper parts
           max == Pow2(db) - 1
           R == r[1]
       IN IF b > a                                                        \* widened: the sample is the upper part
          THEN IF n = 1 THEN R \div Pow2(w) = s[1]
               ELSE R * n > s[1] * Pow2(w) - n * Pow2(w) - n /\ R * n < s[1] * Pow2(w) + 2 * n * Pow2(w) + n
          ELSE IF n = 1                                                    \* narrowed: rounded to the nearest, at most the largest
               THEN IF w = 0 THEN R = (IF s[2] >= 32768 /\ s[1] < max THEN s[1] + 1 ELSE s[1])
                    ELSE LET u == Pow2(0 - w)
                             d == R * u - s[1]
                         IN 2 * Abs(d) <= u \/ (R = max /\ d <= 0)
               ELSE LET u == Pow2(0 - w)
                        d == R * u * n - s[1]
                    IN 4 * Abs(d) <= 5 * u * n + 4 * n \/ (R = max /\ d <= 0)
(* colour: coefficients in millionths; both sides in units of 1/15625 of a level *)
Coef == [toY |-> <<212600, 715200, 72200>>, toU |-> <<-114572, -385428, 500000>>, toV |-> <<500000, -454153, -45847>>,
         toR |-> <<1000000, 0, 1574800>>, toG |-> <<1000000, -187324, -468124>>, toB |-> <<1000000, 1855600, 0>>]
Times(v, c) == (v \div 256) * c + (((v % 256) * c) \div 256)          \* v * c / 256, the rest rounded down
Ideal(k, v) == 4 * (Times(v[1], k[1]) + Times(v[2], k[2]) + Times(v[3], k[3]))
E6(n) == n * 15625                                                      \* for n up to 2^16
Clamp(x, max) == IF x < 0 THEN 0 ELSE IF x > max THEN max ELSE x
(* v: the three source samples (upper parts, depth da), R: the result (upper part, depth db); tol in levels of the coarser depth *)
Coloured(to, v, da, R, db, tol) ==
  LET toyuv == to \in {"toY", "toU", "toV"}
      half == IF toyuv THEN 0 ELSE Pow2(da - 1)
      off == IF to \in {"toU", "toV"} THEN Pow2(da - 1) ELSE 0
      x == Ideal(Coef[to], <<v[1], v[2] - half, v[3] - half>>) + E6(off)
      y == Clamp(x, E6(Pow2(da) - 1))                                    \* ideal at the source depth
  IN IF da = db THEN Abs(E6(R) - y) <= 15625 * tol + 20
     ELSE IF db > da THEN LET u == Pow2(db - da) IN Abs(15625 * (R \div u) - y) <= 15625 * tol + 20
     ELSE LET u == Pow2(da - db) IN Abs(15625 * R - (y \div u)) <= 15625 * tol + 20
Names3(F) == IF Rgb(F) THEN <<"toR", "toG", "toB">> ELSE <<"toY", "toU", "toV">>
(* one sample of the result; A, B formats, ca, cb components, a, b bytes *)
Right(na, nb, ca, cb, a, b, i, x, y) ==
  LET A == Video[na]
      B == Video[nb]
      r == Sample(nb, cb, b, i, x, y)
  IN IF Rgb(A) = Rgb(B)
     THEN LET U == IF i = 1 THEN {<<x, y>>} ELSE Under(A, B, x, y)
              s == Pile([p \in U |-> Sample(na, ca, a, i, p[1], p[2])], U)
              n == IF i = 1 THEN 1 ELSE (IF HS(A) < HS(B) THEN 2 ELSE 1) * (IF VS(A) < VS(B) THEN 2 ELSE 1)
          IN Same(A.bits, B.bits, s, n, r)
     ELSE IF Rgb(B)                                                       \* chroma repeated, then to RGB
     THEN LET at(j) == IF j = 1 THEN <<x, y>> ELSE <<x \div (HS(A) + 1), y \div (VS(A) + 1)>>
              v == [j \in 1..3 |-> Sample(na, ca, a, j, at(j)[1], at(j)[2])[1]]
          IN Coloured(Names3(B)[i], v, Depth(A), r[1], Depth(B), IF A.bits = B.bits /\ A.bits < 32 THEN 1 ELSE 4)
     ELSE LET U == IF i = 1 THEN {<<x, y>>} ELSE { <<p, q>> : p \in (x * (HS(B) + 1))..(x * (HS(B) + 1) + HS(B)), q \in (y * (VS(B) + 1))..(y * (VS(B) + 1) + VS(B)) }
              (* the mean of the samples underneath: the transformation is linear *)
              n == IF i = 1 THEN 1 ELSE (HS(B) + 1) * (VS(B) + 1)
              s(j) == Pile([p \in U |-> Sample(na, ca, a, j, p[1], p[2])], U)[1] \div n
          IN Coloured(Names3(B)[i], <<s(1), s(2), s(3)>>, Depth(A), r[1], Depth(B), IF A.bits = B.bits /\ A.bits < 32 /\ n = 1 THEN 1 ELSE 4)
Spots(n, w, h) == { <<i, x, y>> : i \in 1..3, x \in 0..(w - 1), y \in 0..(h - 1) }
Seen(n, w, h) == { t \in Spots(n, w, h) : t[2] < CW(Video[n], w, t[1]) /\ t[3] < CH(Video[n], h, t[1]) }
InRange(n, cs, b, w, h) == \A t \in Seen(n, w, h) : Sample(n, cs, b, t[1], t[2], t[3])[1] < Pow2(Depth(Video[n]))
Wrong(na, nb, w, h, ca, cb, a, b) == { t \in Seen(nb, w, h) : ~Right(na, nb, ca, cb, a, b, t[1], t[2], t[3]) }
(* conversions that lose nothing *)
Lossless(na, nb) == LET A == Video[na]
                        B == Video[nb]
                    IN Rgb(A) = Rgb(B) /\ A.bits = B.bits /\ HS(A) >= HS(B) /\ VS(A) >= VS(B)
=============================================================================
