------------------------------ MODULE Framing -------------------------------
(* Cutting a stream into frames as it arrives, in pieces of any length; the frames do not depend on how.                *)
EXTENDS Cutting
VARIABLES input, pos, buf, out, end       \* what was read of the input, what is held back, the frames given, how it ended
fvars == <<input, pos, buf, out, end>>
(* ---- reading ---- *)
FInit == pos = 0 /\ buf = <<>> /\ out = <<>> /\ end = "reading"
Goal == IF Len(buf) < Header THEN Header ELSE Size(SubSeq(buf, 1, Header))
Known == Len(buf) >= Header
(* the source gives some of what was asked for, nothing only at its end *)
Fetch == /\ end = "reading" /\ (IF Known THEN Valid(SubSeq(buf, 1, Header)) /\ Len(buf) < Goal ELSE TRUE)
         /\ \E k \in 1..(Goal - Len(buf)) : pos + k <= Len(input) /\ pos' = pos + k /\ buf' = buf \o SubSeq(input, pos + 1, pos + k)
         /\ UNCHANGED <<input, out, end>>
Give == /\ end = "reading" /\ Known /\ Valid(SubSeq(buf, 1, Header)) /\ buf # <<>>
        /\ (Len(buf) = Goal \/ pos = Len(input))
        /\ out' = Append(out, buf) /\ buf' = <<>> /\ UNCHANGED <<input, pos, end>>
Stop == /\ end = "reading" /\ \/ pos = Len(input) /\ buf = <<>> /\ end' = "end"
                              \/ pos = Len(input) /\ buf # <<>> /\ ~Known /\ end' = "refused"
                              \/ Known /\ buf # <<>> /\ ~Valid(SubSeq(buf, 1, Header)) /\ end' = "refused"
        /\ UNCHANGED <<input, pos, buf, out>>
FNext == Fetch \/ Give \/ Stop
(* ---- what holds ---- *)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Lossless == Flat(out) \o buf = SubSeq(input, 1, pos)
Prefix == Len(out) <= Len(Frames(input)) /\ out = SubSeq(Frames(input), 1, Len(out))
Complete == end # "reading" => out = Frames(input) /\ end = Ending(input)
Live == out # <<>> /\ buf = <<>> => pos = Len(Flat(out))          \* a frame is given before anything after it is read
=============================================================================
