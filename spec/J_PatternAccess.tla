-------------------------- MODULE J_PatternAccess ---------------------------
(* case: gen, ops; each op: op "get" (key, absent: what says there is none), "has", "open" (it, range), "next" (it);     *)
(* res: <<>> none, <<[ts, sync, same]>> a grain and whether it is the one a new generator gives for its time              *)
(* own: the attributes the generator says it has; asked: those it was made with                                          *)
EXTENDS Judge
INSTANCE PatternAccess WITH NS <- <<1, <<2560, 2476, 59>>>>        \* 10^9
Given(res) == IF res = <<>> THEN <<>> ELSE <<res[1].ts>>
Proper(res) == IF res = <<>> THEN {} ELSE (IF res[1].sync = res[1].ts THEN {} ELSE {"sync time"}) \union (IF res[1].same THEN {} ELSE {"not the grain of its time"})
Moved(g, o, pos) == IF o.op = "next" THEN Onward(g, o.range, pos[o.it]) ELSE <<0>>
RECURSIVE Walk(_, _, _)
Walk(c, i, pos) ==
  IF i > Len(c.ops) THEN {}
  ELSE LET o == c.ops[i]
           g == c.gen
           at(s) == { x \o " at " \o ToString(i) : x \in s }
           m == Moved(g, o, pos)
       IN CASE o.op = "get" -> at((IF o.failed # "" THEN {o.failed} ELSE IF Given(o.res) \in OfKey(g, o.key) THEN Proper(o.res) ELSE {"other grain"})) \union Walk(c, i + 1, pos)
            [] o.op = "has" -> at(IF o.failed # "" THEN {o.failed}
                                  ELSE IF o.res = (<<>> \notin OfKey(g, o.key)) \/ (<<>> \in OfKey(g, o.key) /\ OfKey(g, o.key) # {<<>>}) THEN {} ELSE {"membership"})
                               \union Walk(c, i + 1, pos)
            [] o.op = "open" -> at(IF o.refused = (o.range.from = <<>>) THEN {} ELSE {"range accepted or refused"}) \union Walk(c, i + 1, Append(pos, 0))
            [] o.op = "next" -> at(IF o.failed # "" THEN {o.failed}
                                   ELSE IF Len(m) = 1 THEN IF o.res = <<>> THEN {} ELSE {"past the end"}
                                   ELSE IF o.res = <<>> THEN {"ended early"}
                                   ELSE IF o.res[1].ts # m[2] THEN {"other grain of the range"} ELSE Proper(o.res))
                                \union Walk(c, i + 1, IF Len(m) = 1 THEN pos ELSE [pos EXCEPT ![o.it] = m[1] + 1])
            [] OTHER -> {"unknown operation"}
CaseVerdict(c) == Walk(c, 1, <<>>) \union (IF "own" \notin DOMAIN c \/ c.own = c.asked THEN {} ELSE {"the generator's own attributes"})
=============================================================================
