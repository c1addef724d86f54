---------------------------- MODULE MC_IOBytes ------------------------------
(* Two overlapping sections of a stream of four bytes, every short history.                                     *)
EXTENDS IOBytes, TLC, Json, FiniteSets
CONSTANTS Depth, Emit
VARIABLES st, hist, loads, first
Secs == <<<<0, 3>>, <<2, 2>>>>
E(o, op, n, b, fault) == [o |-> o, op |-> op, n |-> n, b |-> b, fault |-> fault, res |-> "", out |-> <<>>, touched |-> FALSE, pos |-> 0]
Ops == { E(o, op, <<0, 0, 0>>, <<>>, FALSE) : o \in 1..2, op \in {"len", "repr", "bytes", "at", "iter"} }
       \union { E(1, "bytes", <<0, 0, 0>>, <<>>, TRUE), E(1, "slice", <<1, None, None>>, <<>>, FALSE), E(2, "rel", <<0, 0, 0>>, <<3, 4>>, FALSE),
                E(1, "other", <<2, 0, 0>>, <<>>, FALSE), E(2, "contains", <<0, 0, 0>>, <<4>>, FALSE),
                E(0, "seek", <<2, 0, 0>>, <<>>, FALSE), E(0, "read", <<1, 0, 0>>, <<>>, FALSE), E(0, "write", <<0, 0, 0>>, <<9>>, FALSE) }
V(x) == IF st.val[x] # <<>> THEN st.val[x][1] ELSE Sec(st.f, Secs[x])
Tries(e) ==
  IF e.o = 0 THEN {[e EXCEPT !.out = SubSeq(st.f, st.pos + 1, Lower(Len(st.f), st.pos + e.n[1]))]}
  ELSE LET r == Result(e.op, e.n, e.b, V(e.o), V(2)) IN
       { [e EXCEPT !.res = x[1], !.out = x[2], !.touched = t, !.pos = st.pos] :
         x \in {<<"ok", <<>>>>, <<"fault", <<>>>>, <<"ok", <<0>>>>, <<"ok", <<1>> \o V(e.o)>>, r}, t \in BOOLEAN }
Init == st = [f |-> <<1, 2, 3, 4>>, pos |-> 0, val |-> <<<<>>, <<>>>>] /\ hist = <<>> /\ loads = <<0, 0>> /\ first = <<<<>>, <<>>>>
MNext == /\ Len(hist) < Depth
         /\ \E e \in Ops : \E t \in Tries(e) :
              /\ st' \in Next(Secs, st, t)
              /\ hist' = Append(hist, <<e.o, e.op, e.n, e.b, e.fault>>)
              /\ loads' = [x \in 1..2 |-> loads[x] + IF st.val[x] = <<>> /\ st'.val[x] # <<>> THEN 1 ELSE 0]
              /\ first' = [x \in 1..2 |-> IF first[x] = <<>> THEN st'.val[x] ELSE first[x]]
Once == \A x \in 1..2 : loads[x] <= 1 /\ (first[x] # <<>> => st.val[x] = first[x])
Undisturbed == [][(\A i \in 1..Len(hist') : i = Len(hist') /\ hist'[i][1] # 0 => st'.pos = st.pos /\ st'.f = st.f)]_<<st, hist, loads, first>>
Possible == (Len(hist) < Depth) => \A e \in Ops : (e.op = "write" /\ st.pos > 3) \/ \E t \in Tries(e) : Next(Secs, st, t) # {}
Printed == (Emit /\ Len(hist) = Depth) => PrintT("BEH " \o ToJson(hist))
=============================================================================
