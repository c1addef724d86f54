------------------------ MODULE MC_PatternPicture ---------------------------
(* A bar of every height moving over pictures of every height, at several speeds.                                       *)
EXTENDS PatternPicture, FiniteSets, TLC
CONSTANTS H, N
VARIABLES h, bh, num, den, n, fmt
vars == <<h, bh, num, den, n, fmt>>
Names == {"U8_444", "U8_420", "S16_422_10BIT"}
F == Video[fmt]
Init == /\ fmt \in Names /\ h \in 1..H /\ bh \in 0..H /\ num \in -2..3 /\ den \in 1..2 /\ n = -N
        /\ (VS(F) = 1 => h >= 2)
MNext == n < N /\ n' = n + 1 /\ UNCHANGED <<h, bh, num, den, fmt>>
top == Top(n, num, den, h)
Lines(i) == { y \in 0..(CH(F, h, i) - 1) : Barred(F, i, y, h, top, bh) }
Least(a, b) == IF a < b THEN a ELSE b
Covers == \A i \in {1, 2} : Cardinality(Lines(i)) = Least(Cut(F, i, bh), CH(F, h, i))
InPicture == top \in 0..(h - 1)
(* in whole pictures of pairs of lines, a barred line of chroma lies by a barred line of luma, and the other way about but for the ends *)
Together == VS(F) = 1 /\ h % 2 = 0 =>
  /\ \A y \in Lines(2) : {2 * y, 2 * y + 1} \cap Lines(1) # {}
  /\ Cardinality({ y \in Lines(1) : (y \div 2) \notin Lines(2) }) <= 2
Moves == [][den = 1 => \A y \in 0..(h - 1) : Barred(F, 1, y, h, Top(n, num, den, h), bh) = Barred(F, 1, (y + num) % h, h, Top(n + 1, num, den, h), bh)]_vars
Spec == Init /\ [][MNext]_vars
Grey == \A x \in 0..15 : LET s(w) == Steps(F, 1, x, w) IN
          /\ s(16) >= Dark(F) /\ s(16) < Dark(F) + Bright(F) /\ (x > 0 => Steps(F, 1, x - 1, 16) <= s(16))
          /\ { Steps(F, 1, z, 16) : z \in 0..15 } = { Steps(F, 1, z, 24) : z \in 0..23 }
=============================================================================
