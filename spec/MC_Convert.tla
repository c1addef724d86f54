----------------------------- MODULE MC_Convert -----------------------------
(* The relations of Convert on their own: what they admit is in range, close, and exact where nothing need be lost.   *)
EXTENDS Convert, TLC, FiniteSets
VARIABLES a, b, v, w
Bits == {8, 10, 12, 16}
Vals(n) == { 0, 1, 2, 3, Pow2(n - 1) - 1, Pow2(n - 1), Pow2(n) - 2, Pow2(n) - 1 } \union { (k * 37) % Pow2(n) : k \in 1..12 }
Init == a \in Bits /\ b \in Bits /\ v \in Vals(a) /\ w \in Vals(a)
MNext == UNCHANGED <<a, b, v, w>>
Max3(x) == Pow2(x) - 1
(* every result admitted for one sample *)
Admitted(p, q, s) == { r \in (IF q > p THEN (s * Pow2(q - p))..Clamp((s + 1) * Pow2(q - p) - 1, Max3(q))
                              ELSE Clamp((s \div Pow2(p - q)) - 2, Max3(q))..Clamp((s \div Pow2(p - q)) + 2, Max3(q))) : Same(p, q, <<s, 0>>, 1, <<r, 0>>) }
Laws ==
  /\ Admitted(a, b, v) # {}                                                             \* something is always right
  /\ a = b => Admitted(a, b, v) = {v}
  /\ b > a => /\ Cardinality(Admitted(a, b, v)) = Pow2(b - a)
              /\ \A r \in { v * Pow2(b - a), (v + 1) * Pow2(b - a) - 1 } : \A back \in Admitted(b, a, r) : back \in {v, Clamp(v + 1, Max3(a))}   \* there and back
              /\ ~Same(a, b, <<v, 0>>, 1, <<v * Pow2(b - a) - 1, 0>>) /\ ~Same(a, b, <<v, 0>>, 1, <<(v + 1) * Pow2(b - a), 0>>)
  /\ b < a => /\ Cardinality(Admitted(a, b, v)) \in {1, 2}
              /\ v = Max3(a) => Admitted(a, b, v) = {Max3(b)}                           \* never wraps
              /\ v = 0 => Admitted(a, b, v) = {0}
  (* means: of equal samples exact, in between otherwise *)
  /\ a = b => \A r \in { r \in Clamp(v - 2, Max3(a))..Clamp(v + 2, Max3(a)) : Same(a, a, <<2 * v, 0>>, 2, <<r, 0>>) } : r = v
  /\ a = b => \A r \in { r \in Vals(a) : Same(a, a, <<v + w, 0>>, 2, <<r, 0>>) } : r >= (IF v < w THEN v ELSE w) /\ r <= (IF v < w THEN w ELSE v)
  (* grey stays grey, and colours come back *)
  /\ a = b => /\ Coloured("toY", <<v, v, v>>, a, v, a, 1) /\ Coloured("toU", <<v, v, v>>, a, Pow2(a - 1), a, 1) /\ Coloured("toV", <<v, v, v>>, a, Pow2(a - 1), a, 1)
              /\ \A c \in {"toR", "toG", "toB"} : Coloured(c, <<v, Pow2(a - 1), Pow2(a - 1)>>, a, v, a, 1)
              /\ \A c \in {"toR", "toB"} : Coloured(c, <<Max3(a), Max3(a), Max3(a)>>, a, Max3(a), a, 1) /\ Coloured(c, <<0, 0, 0>>, a, 0, a, 1)
              /\ \A c \in {"toR", "toG", "toB"} : ~Coloured(c, <<Max3(a), Pow2(a - 1), Pow2(a - 1)>>, a, 0, a, 1)
=============================================================================
