------------------------- MODULE MC_PatternAccess ---------------------------
(* Users of one generator: grains got by time, iterators open over ranges and advanced in any interleaving, and grains  *)
(* written over after they were given.  Copies = FALSE: the fault of giving out the generator's own picture.            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Iters, Copies
VARIABLES picture, iters, held, last, log
vars == <<picture, iters, held, last, log>>
Frames == 0..3
Skips == 1..2
Clean == 0
Init == picture = Clean /\ iters = <<>> /\ held = <<>> /\ last = <<>> /\ log = <<>>
Give(n, via) == /\ last' = <<n, picture, via>>
                /\ held' = Append(held, n)
Get == \E n \in Frames : Give(n, 0) /\ log' = Append(log, <<"get", n>>) /\ UNCHANGED <<picture, iters>>
Open == /\ Len(iters) < Iters
        /\ \E a \in Frames, s \in Skips : \E b \in a..3 \union {-1} :
             iters' = Append(iters, [at |-> a, from |-> a, to |-> b, skip |-> s, given |-> <<>>]) /\ log' = Append(log, <<"open", a, b, s>>)
        /\ UNCHANGED <<picture, held, last>>
Step == \E i \in DOMAIN iters :
          LET it == iters[i] IN
          /\ IF it.to = -1 \/ it.at <= it.to
             THEN Give(it.at, i) /\ iters' = [iters EXCEPT ![i].at = @ + it.skip, ![i].given = Append(@, it.at)]
             ELSE last' = <<>> /\ UNCHANGED <<iters, held>>
          /\ log' = Append(log, <<"step", i>>) /\ UNCHANGED picture
Write == held # <<>> /\ log[Len(log)][1] # "write" /\ picture' = (IF Copies THEN picture ELSE picture + 1) /\ log' = Append(log, <<"write">>) /\ last' = <<>> /\ UNCHANGED <<iters, held>>
MNext == Len(log) < Depth /\ (Get \/ Open \/ Step \/ Write)
Untouched == last # <<>> => last[2] = Clean
Ordered == \A i \in DOMAIN iters : \A k \in DOMAIN iters[i].given :
             iters[i].given[k] = iters[i].from + (k - 1) * iters[i].skip /\ (iters[i].to = -1 \/ iters[i].given[k] <= iters[i].to)
Emit == Len(log) = Depth => PrintT("BEH " \o ToJson(log))
=============================================================================
