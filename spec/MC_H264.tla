------------------------------- MODULE MC_H264 ------------------------------
(* A stream read in blocks, a picture being found only once its successor's first unit is seen.  A unit is two cells,    *)
(* its kind and its rest: "d" belongs to the next picture once there is a slice, "n" is a slice of a new picture, "s"     *)
(* one of the same picture (told from n by its second cell only), "o" goes with the picture before.  The reader guesses   *)
(* how much to read from the picture before.  Hasty: the reader takes an empty read for the end before looking whether    *)
(* what it holds still has pictures in it.                                                                               *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Units, Block, Hasty
VARIABLES input, pos, buf, out, prev, phase      \* phase: fresh (start of a picture), again (more data needed), end
vars == <<input, pos, buf, out, prev, phase>>
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Cells(u) == CASE u = "d" -> <<"d", "x">> [] u = "n" -> <<"slice", "new">> [] u = "s" -> <<"slice", "same">> [] OTHER -> <<"o", "x">>
Kinds == {"d", "n", "s", "o"}
(* the unit from cell i on begins a new picture, given whether there is a slice before it; "unknown" if cut short *)
Starts(b, i, sliced) == IF b[i] = "slice" THEN IF i = Len(b) THEN "unknown" ELSE IF sliced /\ b[i + 1] = "new" THEN "yes" ELSE "no"
                        ELSE IF b[i] = "d" /\ sliced THEN "yes" ELSE "no"
RECURSIVE Find(_, _, _)
Find(b, i, sliced) == IF i > Len(b) THEN 0
                      ELSE LET s == Starts(b, i, sliced)
                           IN IF s = "unknown" THEN 0 ELSE IF s = "yes" THEN i - 1 ELSE Find(b, i + 2, sliced \/ b[i] = "slice")
Parse(b) == Find(b, 1, FALSE)                    \* the length of the first picture, 0 when its end is not seen
RECURSIVE Pictures(_)
Pictures(b) == IF b = <<>> THEN <<>> ELSE LET k == Parse(b) IN IF k = 0 THEN <<b>> ELSE <<SubSeq(b, 1, k)>> \o Pictures(SubSeq(b, k + 1, Len(b)))
Init == /\ \E n \in 0..Units : \E u \in [1..n -> Kinds] : input = Flat([i \in 1..n |-> Cells(u[i])])
        /\ pos = 0 /\ buf = <<>> /\ out = <<>> /\ prev = 0 /\ phase = "fresh"
Blocks(n) == ((n + Block - 1) \div Block) * Block
Want == IF phase = "again" THEN Block
        ELSE IF prev > 0 THEN (IF prev > Len(buf) THEN Blocks(prev - Len(buf)) ELSE 0)
        ELSE IF buf = <<>> THEN Block ELSE 0
(* the source gives some of what is wanted, nothing only at its end *)
Step(k) == LET b == buf \o SubSeq(input, pos + 1, pos + k)
               n == Parse(b)
           IN /\ pos' = pos + k /\ UNCHANGED input
              /\ IF n > 0 /\ ~(Hasty /\ Want > 0 /\ k = 0)
                 THEN out' = Append(out, SubSeq(b, 1, n)) /\ buf' = SubSeq(b, n + 1, Len(b)) /\ prev' = n /\ phase' = "fresh"
                 ELSE IF Want > 0 /\ k = 0
                 THEN /\ out' = (IF b = <<>> THEN out ELSE Append(out, b)) /\ buf' = <<>> /\ phase' = "end" /\ UNCHANGED prev
                 ELSE buf' = b /\ phase' = "again" /\ UNCHANGED <<out, prev>>
Next == phase # "end" /\ \E k \in 0..Want : /\ pos + k <= Len(input) /\ (IF k = 0 THEN Want = 0 \/ pos = Len(input) ELSE TRUE)
                                            /\ Step(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Lossless == Flat(out) \o buf = SubSeq(input, 1, pos)
Right == Len(out) <= Len(Pictures(input)) /\ out = SubSeq(Pictures(input), 1, Len(out))
Complete == phase = "end" => out = Pictures(input)
(* what is found in a part of the stream is what is there in the whole *)
Stable == LET b == SubSeq(input, 1, pos) IN Parse(b) > 0 => Parse(b) = Parse(input)
Ends == <>(phase = "end")
=============================================================================
