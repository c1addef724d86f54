---------------------------- MODULE MC_GrainData ----------------------------
(* Every short history of a grain, its copies, two sources and the tasks waiting for them.                         *)
EXTENDS GrainData, TLC, Json
CONSTANTS Depth, Emit, Event
VARIABLES S, hist
No == <<FALSE, FALSE, FALSE>>
E(op, i, a) == <<op, i, a>>
Used(s) == S.src[s].n > 0 \/ \E i \in 1..Len(S.g) : S.g[i].pend = s
ever(s) == Used(s) \/ \E k \in 2..Len(hist) : hist[k][1] = "defer" /\ hist[k][3] = s
Ops == { E("data", i, v) : i \in 1..Len(S.g), v \in IF Event THEN {4} ELSE {0, 4} }
       \union { E("defer", i, s) : i \in 1..Len(S.g), s \in { s \in 1..2 : ~ever(s) } }
       \union { E("wait", i, 0) : i \in { i \in 1..Len(S.g) : Len(S.T) < 2 } }
       \union { E(f, s, IF f = "fin" THEN 6 ELSE 0) : f \in {"fin", "fail"}, s \in { s \in 1..2 : S.src[s].fin = <<>> } }
       \union { E("fin", s, 0) : s \in { s \in 1..2 : S.src[s].fin = <<>> } }
       \union { E("cancel", t, 0) : t \in { t \in 1..Len(S.T) : S.T[t].st = "wait" } }
       \union { E("setlen", i, 5) : i \in 1..Len(S.g) }
       \union { E("mutate", i, 0) : i \in { i \in 1..Len(S.g) : Val(S, i) > 1 } }
       \union { E("attr", i, 7) : i \in 1..Len(S.g) } \union { E("nested", i, 7) : i \in 1..Len(S.g) }
       \union { E(o, i, 0) : o \in {"copy", "deep"}, i \in { i \in 1..Len(S.g) : Len(S.g) < 2 /\ ~(Event /\ S.g[i].pend # 0) } }
R(e) == Do(S, e[1], e[2], e[3], No)
Init == \E x \in (IF Event THEN {<<2, 0>>, <<2, 1>>} ELSE {<<2, 0>>, <<0, 0>>, <<0, 1>>}) : S = Fresh(Event, x[1], x[2], 2) /\ hist = <<x>>
MNext == Len(hist) <= Depth /\ \E e \in Ops : S' = R(e)[1] /\ hist' = Append(hist, e)
Grainwise == {"data", "defer", "setlen", "mutate", "attr", "nested"}
Laws ==
  /\ \A s \in 1..2 : S.src[s].n \in {0, 1} /\ (S.src[s].n = 1 <=> \E t \in 1..Len(S.T) : S.T[t].s = s)
  /\ \A i \in 1..Len(S.g) : S.g[i].pend # 0 => Val(S, i) = 0
  /\ \A e \in Ops : LET Q == R(e)[1] IN
       /\ R(e)[2] # "ok" => Q = S
       /\ e[1] \in Grainwise => \A j \in 1..Len(S.g) : j # e[2] => Val(Q, j) = Val(S, j) /\ Q.g[j] = S.g[j]        \* copies are independent
       /\ e[1] \in {"copy", "deep"} => Val(Q, Len(Q.g)) = Val(S, e[2]) /\ (S.g[e[2]].pend = 0 => Same(Q, e[2], Len(Q.g)))
       /\ e[1] = "data" => Val(Q, e[2]) = (IF Event /\ e[3] = 0 THEN Val(Q, e[2]) ELSE e[3]) /\ Q.g[e[2]].pend = 0
       /\ e[1] \notin {"wait"} => \A s \in 1..2 : Q.src[s].n = S.src[s].n                                          \* awaited only when asked for
       /\ e[1] = "fin" => \A j \in 1..Len(S.g) : S.g[j].pend # e[2] => Val(Q, j) = Val(S, j)                       \* replaced sources do not come back
  /\ \A t \in 1..Len(S.T) : S.T[t].st = "wait" => S.src[S.T[t].s].fin = <<>>
Printed == (Emit /\ Len(hist) = Depth + 1) => PrintT("BEH " \o ToJson(hist))
=============================================================================
