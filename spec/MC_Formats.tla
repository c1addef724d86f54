----------------------------- MODULE MC_Formats -----------------------------
(* Every format and small picture: the samples lie inside the data, apart from each other, and fill it.             *)
EXTENDS Formats, FiniteSets, TLC
CONSTANT N
VARIABLES f, w, h
Init == f \in DOMAIN Video \union DOMAIN Audio /\ w \in 1..N /\ h \in 1..N
MNext == UNCHANGED <<f, w, h>>
Lines(F, cs, i) == { <<x, y>> : x \in 0..(CW(F, w, i) - 1), y \in 0..(CH(F, h, i) - 1) }
Bytes(F, cs) == { <<i, p, b>> : i \in 1..3, p \in (0..(w - 1)) \X (0..(h - 1)), b \in 0..(F.bpv - 1) }
Even(n) == n % 2 = 0
VideoLaws ==
  LET F == Video[f]
      cs == Tight(f, w, h)
      B == { t \in Bytes(F, cs) : t[2] \in Lines(F, cs, t[1]) }
      at(t) == Addr(F, cs, t[1], t[2][1], t[2][2]) + t[3]
      A == { at(t) : t \in B }
  IN /\ Describes(f, w, h, cs)
     /\ f # "v210" => /\ Cardinality(A) = Cardinality(B)                        \* no two samples share a byte
                      /\ \A a \in A : a \in 0..(Total(cs) - 1)
                      /\ F.kind = "planar" => Cardinality(A) = Total(cs)        \* nothing left over
                      /\ (F.kind = "packed" /\ (HS(F) = 0 \/ Even(w))) => Cardinality(A) = (IF F.group = 4 /\ F.bpv = 1 THEN 3 * w * h ELSE Total(cs))
     /\ f = "v210" => Total(cs) * 6 >= 16 * w * h
AudioLaws ==
  LET A == Audio[f]
      P == { AudioAt(A, w, h, c, n) : c \in 0..(w - 1), n \in 0..(h - 1) }
  IN /\ Cardinality(P) = w * h
     /\ \A p \in P : p >= 0 /\ (p + 1) * A.bytes <= AudioBytes(A, w, h)
     /\ (A.arr # "pairs" \/ Even(w)) => AudioBytes(A, w, h) = w * h * A.bytes
Laws == IF f \in DOMAIN Video THEN VideoLaws ELSE AudioLaws
=============================================================================
