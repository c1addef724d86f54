-------------------------- MODULE MC_StreamCompare --------------------------
(* A comparison taking one grain of each stream at a time, and that it ends with what StreamCompare says outright.     *)
EXTENDS StreamCompare, Sequences, TLC
CONSTANT N
VARIABLES la, lb, diff, ta, tb, seen, pc, extra
vars == <<la, lb, diff, ta, tb, seen, pc, extra>>
Same(i) == i \notin diff
Init == /\ la \in 0..N \union {Endless} /\ lb \in 0..N \union {Endless} /\ diff \in SUBSET (1..N) /\ (la # Endless \/ lb # Endless \/ diff # {})
        /\ ta = 0 /\ tb = 0 /\ seen = 0 /\ pc = "a" /\ extra = 0
TakeA == pc = "a" /\ pc' = "b" /\ ta' = (IF Has(la, ta + 1) THEN ta + 1 ELSE ta) /\ UNCHANGED <<la, lb, diff, tb, seen, extra>>
TakeB == pc = "b" /\ pc' = "c" /\ tb' = (IF Has(lb, tb + 1) THEN tb + 1 ELSE tb) /\ UNCHANGED <<la, lb, diff, ta, seen, extra>>
Look == /\ pc = "c"
        /\ IF ta > seen /\ tb > seen THEN seen' = seen + 1 /\ pc' = (IF Same(seen + 1) THEN "a" ELSE "unlike") /\ extra' = 0
           ELSE seen' = seen /\ (IF ta = tb THEN pc' = "alike" /\ extra' = 0 ELSE pc' = "unlike" /\ extra' = seen + 1)
        /\ UNCHANGED <<la, lb, diff, ta, tb>>
MNext == TakeA \/ TakeB \/ Look
Shorter == IF la = Endless THEN lb ELSE IF lb = Endless THEN la ELSE IF la < lb THEN la ELSE lb
F == First(la, lb, Same, N + 1)
Ends == pc \in {"alike", "unlike"} =>
  /\ (pc = "alike") = (F = 0)
  /\ seen = Compared(la, lb, F, Shorter)
  /\ ta = Taken(la, F, Shorter) /\ tb = Taken(lb, F, Shorter)
  /\ Kept(la, lb, F, Shorter, FALSE) = 1..seen \union (IF extra = 0 THEN {} ELSE {extra})
NoFurther == F # 0 => ta <= F /\ tb <= F
Spec == Init /\ [][MNext]_vars /\ WF_vars(MNext)
Finishes == <>(pc \in {"alike", "unlike"})
=============================================================================
