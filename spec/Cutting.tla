------------------------------ MODULE Cutting -------------------------------
(* Cutting a stream of bytes into frames.  A frame's length is told by its first Header bytes (Size of them; a constant  *)
(* size when Header is 0).                                                                                               *)
EXTENDS Integers, Sequences
CONSTANTS Header, Size(_), Valid(_)
Min(a, b) == IF a < b THEN a ELSE b
(* what there is to be: from position p on, the frames [from, length] and how the stream ends *)
RECURSIVE Cut(_, _)
Cut(in, p) ==
  LET left == Len(in) - p
      h == SubSeq(in, p + 1, p + Header)
  IN IF left = 0 THEN [frames |-> <<>>, end |-> "end"]
     ELSE IF left < Header \/ ~Valid(h) THEN [frames |-> <<>>, end |-> "refused"]
     ELSE LET n == Min(Size(h), left)
              rest == Cut(in, p + n)
          IN [frames |-> << <<p, n>> >> \o rest.frames, end |-> rest.end]
Frames(in) == LET c == Cut(in, 0) IN [i \in 1..Len(c.frames) |-> SubSeq(in, c.frames[i][1] + 1, c.frames[i][1] + c.frames[i][2])]
Ending(in) == Cut(in, 0).end
=============================================================================
