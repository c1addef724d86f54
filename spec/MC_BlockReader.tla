--------------------------- MODULE MC_BlockReader ---------------------------
(* Every short session on small files: nested blocks, blocks too big or too small, a special block, a file cut short.        *)
EXTENDS BlockReader, Json, FiniteSets
CONSTANTS Depth, Emit
VARIABLES s, hist, file, broken
A == <<97, 97, 97, 97>>
B == <<98, 0, 98, 98>>
Bl(t, size, body) == t \o LE(size, 4) \o body
Nested == Bl(A, 8 + 3 + 9 + 8, <<1, 2, 3>> \o Bl(B, 9, <<200>>) \o Bl(B, 8, <<>>)) \o Bl(B, 10, <<5, 6>>)
Files == << Nested,
            Bl(A, 18, Bl(B, 30, <<1, 2>>) \o <<3, 4, 5, 6, 7, 8, 9, 9, 9, 9, 9, 9, 9, 9>>) \o Bl(B, 8, <<>>),           \* a child too big
            Bl(A, 8 + 8 + 3, Bl(B, 0, <<>>) \o <<1, 2, 3>>) \o Bl(A, 0, <<>>) \o Bl(B, 9, <<7>>),                       \* special, and a part of a block
            SubSeq(Nested, 1, 17) >>                                                                                     \* cut short
E(o, n, w, t) == [op |-> o, n |-> n, null |-> <<>>, want |-> w, strict |-> t]
Ops == { E("enter", 0, <<>>, FALSE), E("enter", 0, <<<<98>>>>, FALSE), E("enter", 0, <<<<98>>>>, TRUE), E("uint", 3, <<>>, FALSE), E("string", 1, <<>>, FALSE),
         E("room", 0, <<>>, TRUE), E("rest", 0, <<>>, FALSE), E("skiprest", 0, <<>>, FALSE), E("copy", 0, <<>>, FALSE), E("children", 0, <<>>, TRUE), E("children", 2, <<>>, FALSE),
         E("leave", 0, <<>>, FALSE), E("drop", 0, <<>>, FALSE), E("abandon", 1, <<>>, FALSE) }
Can(x, e) == CASE e.op = "leave" -> In(x) /\ ~Top(x).copy
               [] e.op = "drop" -> In(x) /\ Top(x).copy
               [] e.op = "abandon" -> In(x)
               [] OTHER -> In(x) \/ e.op \in {"enter", "uint"}
Init == /\ file \in 1..Len(Files) /\ s = Session(0, Files[file], 0) /\ hist = <<>> /\ broken = FALSE
MNext == /\ Len(hist) < Depth
         /\ \E e \in Ops : /\ Can(s, e) /\ (broken => e.op = "abandon")
                           /\ s' = Do(s, e).s
                           /\ broken' = (e.op # "abandon" /\ Do(s, e).res # "ok")
                           /\ hist' = Append(hist, <<e.op, e.n, e.want, e.strict>>)
         /\ UNCHANGED file
(* what is read of a copy of a block is what is read of the block itself *)
Reads == { e \in Ops : e.op \in {"enter", "uint", "string", "room", "rest", "children"} }
CopySame == (In(s) /\ ~broken /\ Do(s, E("copy", 0, <<>>, FALSE)).res = "ok") =>
              \A e \in Reads : LET r == Do(s, e)
                                   q == Do(Do(s, E("copy", 0, <<>>, FALSE)).s, e)
                               IN (r.res = "ok" /\ File(r.s).p <= End(Top(s))) => q.res = "ok" /\ q.val = r.val /\ q.kids = r.kids
(* blocks that fit in one another end where the next begins: all that is read of a well-formed file is its tree *)
Tiled == file = 1 /\ ~broken /\ In(s) => LET r == Do(s, E("children", 0, <<>>, TRUE))
                                         IN r.res = "ok" /\ r.kids # <<>> => File(r.s).p = End(Top(s))
(* leaving a block, however, puts the file at its end *)
LeftAtEnd == [][\A e \in Ops : (e.op \in {"leave", "abandon"} /\ In(s) /\ ~Top(s).copy /\ Do(s, e).res = "ok") => Do(s, e).s.fs[Top(s).f].p = End(Top(s))]_<<s, hist, file, broken>>
Back == [][Len(s'.blocks) >= Len(s.blocks) - 1 /\ Len(s'.blocks) >= 1]_<<s, hist, file, broken>>
Printed == (Emit /\ Len(hist) = Depth) => PrintT("BEH " \o ToJson(<<file, Files[file], hist>>))
=============================================================================
