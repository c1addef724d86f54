----------------------------- MODULE MC_Framing -----------------------------
(* Frames of constant size (Head = 0, size K) and frames whose first byte is their size (Head = 1; 0 is no valid size).   *)
(* Once: the code as it was, each frame taken in a single read.                                                           *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Longest, K, Head1, Once
VARIABLES input, pos, buf, out, end
MSize(h) == IF Head1 = 0 THEN K ELSE h[1]
MValid(h) == IF Head1 = 0 THEN TRUE ELSE h[1] > 0
INSTANCE Framing WITH Header <- Head1, Size <- MSize, Valid <- MValid
vars == <<input, pos, buf, out, end>>
Init == FInit /\ \E n \in 0..Longest : input \in [1..n -> 0..3]
(* a single read may give less than was asked for, and is taken for the frame *)
Single == /\ end = "reading" /\ Head1 = 0 /\ pos < Len(input)
          /\ \E k \in 1..K : pos + k <= Len(input) /\ pos' = pos + k /\ out' = Append(out, SubSeq(input, pos + 1, pos + k))
          /\ UNCHANGED <<input, buf, end>>
Next == IF Once THEN Single \/ Stop ELSE FNext
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(end # "reading")
=============================================================================
