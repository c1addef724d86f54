--------------------------- MODULE MC_GsfLoadTasks --------------------------
(* Why the tasks of a reading session need the lock: an iterating task and tasks loading data out of order      *)
(* share one file position.  Cell 2i-1 of the file is the header of grain i, cell 2i its data.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NGrains, Locked
VARIABLES pos, lock, ipc, heads, lpc, old, got
vars == <<pos, lock, ipc, heads, lpc, old, got>>
Loaders == 1..NGrains
Free == "free"
Init == pos = 1 /\ lock = Free /\ ipc = "idle" /\ heads = <<>>
        /\ lpc = [k \in Loaders |-> "idle"] /\ old = [k \in Loaders |-> 0] /\ got = [k \in Loaders |-> 0]
Can(who) == ~Locked \/ lock = Free \/ lock = who
Take(who) == lock' = IF Locked THEN who ELSE lock
Give == lock' = Free
(* iteration: read a header, then skip the data relative to the position *)
IRead == ipc = "idle" /\ pos <= 2 * NGrains /\ Len(heads) < NGrains /\ Can("iter") /\ Take("iter")
         /\ heads' = Append(heads, pos) /\ pos' = pos + 1 /\ ipc' = "skip" /\ UNCHANGED <<lpc, old, got>>
ISkip == ipc = "skip" /\ pos' = pos + 1 /\ ipc' = "idle" /\ Give /\ UNCHANGED <<heads, lpc, old, got>>
(* loading grain k, once it has been handed out *)
LSeek(k) == lpc[k] = "idle" /\ Len(heads) >= k /\ ~(Len(heads) = k /\ ipc = "skip") /\ Can(ToString(k)) /\ Take(ToString(k))
            /\ old' = [old EXCEPT ![k] = pos] /\ pos' = 2 * k /\ lpc' = [lpc EXCEPT ![k] = "read"]
            /\ UNCHANGED <<ipc, heads, got>>
LRead(k) == lpc[k] = "read" /\ got' = [got EXCEPT ![k] = pos] /\ pos' = pos + 1 /\ lpc' = [lpc EXCEPT ![k] = "back"]
            /\ UNCHANGED <<lock, ipc, heads, old>>
LBack(k) == lpc[k] = "back" /\ pos' = old[k] /\ lpc' = [lpc EXCEPT ![k] = "done"] /\ Give
            /\ UNCHANGED <<ipc, heads, old, got>>
Done == ipc = "idle" /\ Len(heads) = NGrains /\ (\A k \in Loaders : lpc[k] = "done") /\ UNCHANGED vars
Next == IRead \/ ISkip \/ (\E k \in Loaders : LSeek(k) \/ LRead(k) \/ LBack(k)) \/ Done
RightHeads == \A i \in 1..Len(heads) : heads[i] = 2 * i - 1
RightData == \A k \in Loaders : got[k] \in {0, 2 * k}
=============================================================================
