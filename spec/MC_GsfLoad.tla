----------------------------- MODULE MC_GsfLoad -----------------------------
(* Every short history of a reading session over a small file, printed for replay.                             *)
EXTENDS GsfLoad, TLC, Json
CONSTANTS Depth, Emit
VARIABLES st, hist
File == << [lid |-> 1, n |-> 3], [lid |-> 2, n |-> 0], [lid |-> 1, n |-> 5] >>
Kind == [async |-> TRUE, seek |-> TRUE]
Op(o, k, m) == [op |-> o, k |-> k, mode |-> m]
Init == /\ \E m \in {"imm", "load-defer", "defer", "never"} :
             st = Iter(Start, m, <<>>) /\ hist = <<Op("iter", 0, m)>>
Next ==
  /\ Len(hist) < Depth
  /\ \/ st.open /\ st' = Advance(File, Kind, st) /\ hist' = Append(hist, Op("next", 0, ""))
     \/ \E k \in 1..Len(st.h) : st' = Looked(Kind, st, k, TRUE, "full" \in Seen(Kind, st, k, TRUE))
                                /\ hist' = Append(hist, Op("await", k, ""))
     \/ \E k \in 1..Len(st.h) : st' = st /\ hist' = Append(hist, Op("touch", k, ""))
     \/ \E k \in 1..Len(st.h) : st' = st /\ hist' = Append(hist, Op("len", k, ""))
     \/ st.open /\ st' = Exit(Kind, st, {}) /\ hist' = Append(hist, Op("exit", 0, ""))
(* the grains handed out are those of the file, each once, in order *)
InOrder == \A a, b \in 1..Len(st.h) : a < b => st.h[a].i < st.h[b].i
Complete == st.ids = <<>> => Len(st.h) = st.pos
(* nothing stays pending after the session *)
Settled == ~st.open => \A k \in 1..Len(st.h) : st.h[k].d # "pend"
Printed == (Emit /\ Len(hist) = Depth) => PrintT("BEH " \o ToJson(hist))
=============================================================================
