----------------------------- MODULE MC_BinFile -----------------------------
(* Every short history of a file of three bytes; the histories are replayed in the real files.                 *)
EXTENDS BinFile, TLC, Json, FiniteSets
CONSTANTS Depth, Kind, Emit
VARIABLES st, hist
E(o, n, w, b) == [op |-> o, n |-> n, whence |-> w, bytes |-> b, res |-> "ok", out |-> <<>>, ret |-> 0]
Ops == { E("read", -1, 0, <<>>), E("read", 1, 0, <<>>), E("read", 4, 0, <<>>), E("readinto", 2, 0, <<>>), E("readall", 0, 0, <<>>),
         E("write", 0, 0, <<7, 8>>), E("write", 0, 0, <<>>), E("truncate", -1, 0, <<>>), E("truncate", 1, 0, <<>>),
         E("truncate", 5, 0, <<>>), E("seek", 0, 0, <<>>), E("seek", 2, 0, <<>>), E("seek", 5, 0, <<>>), E("seek", -1, 1, <<>>),
         E("seek", 1, 1, <<>>), E("seek", -1, 2, <<>>) }
(* an observation of this operation that is allowed *)
Tries(e) == { [e EXCEPT !.res = r, !.ret = k, !.out = o] :
              r \in {"ok", "eof", "unsupported", "value"}, k \in 0..12,
              o \in {<<>>} \union (IF e.op \in Reads THEN { From(st.c, st.p, n) : n \in 0..12 } ELSE {}) }
Init == st = [c |-> IF Kind = "writer" THEN <<>> ELSE <<1, 2, 3>>, p |-> 0, q |-> 0] /\ hist = <<>>
MNext == /\ Len(hist) < Depth
         /\ \E e \in Ops : /\ \E t \in Tries(e) : st' \in Next(Kind, st, t)
                           /\ hist' = Append(hist, <<e.op, e.n, e.whence, e.bytes>>)
(* every operation has an allowed outcome; positions stay sensible *)
Possible == Len(hist) < Depth => \A e \in Ops : \E t \in Tries(e) : Next(Kind, st, t) # {}
Sane == st.p >= 0 /\ (Stream(Kind) => st.q <= Max2(st.p, st.q)) /\ (Kind = "reader" => st.c = <<1, 2, 3>>)
Printed == (Emit /\ Len(hist) = Depth) => PrintT("BEH " \o ToJson(hist))
=============================================================================
