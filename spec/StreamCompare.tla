--------------------------- MODULE StreamCompare ----------------------------
(* Comparing two streams of grains in pairs: which pairs are looked at, where it stops and what is left to see.       *)
(* la, lb: lengths of the streams (Endless for one without end); same(i): whether the i-th grains match.               *)
EXTENDS Integers, FiniteSets
Endless == -1
Has(l, i) == l = Endless \/ i <= l
(* what the outcome is, said outright: the first place at which they part, 0 if they do not *)
Parts(la, lb, same(_), m) == { i \in 1..m : (Has(la, i) /\ Has(lb, i) /\ ~same(i)) \/ Has(la, i) # Has(lb, i) }
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
First(la, lb, same(_), m) == LET P == Parts(la, lb, same, m) IN IF P = {} THEN 0 ELSE Least(P)
(* pairs compared, grains taken from a stream, and results kept, for a first difference at f and shortest length n *)
Compared(la, lb, f, n) == IF f = 0 THEN n ELSE IF Has(la, f) /\ Has(lb, f) THEN f ELSE f - 1
Taken(l, f, n) == IF f = 0 THEN n ELSE IF Has(l, f) THEN f ELSE f - 1
Kept(la, lb, f, n, lastonly) == LET k == Compared(la, lb, f, n)
                                IN (IF lastonly THEN (1..k) \cap {k} ELSE 1..k) \union (IF f # 0 /\ k = f - 1 THEN {f} ELSE {})
=============================================================================
