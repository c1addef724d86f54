----------------------------- MODULE GrainLists -----------------------------
(* List attributes of grains: plain lists of elements, an element being a sequence of fields.                    *)
(* kind: "timelabels" (tag, count, rate, drop), "components" (width, height, stride, offset, length),              *)
(*   "unit_offsets" (the number), "event_data" (path, pre, post; the last two <<>> or <<value>>)                    *)
(* Event: op, n (integers, None where absent), x (elements), v (field value), res, out (elements), num              *)
EXTENDS Integers, Sequences, FiniteSets
None == 99999
Low(a, b) == IF a <= b THEN a ELSE b
High(a, b) == IF a >= b THEN a ELSE b
Rev(S) == [i \in 1..Len(S) |-> S[Len(S) + 1 - i]]
Clamp(v, lo, hi) == High(lo, Low(v, hi))
FromEnd(v, n) == IF v < 0 THEN v + n ELSE v
(* the indices (from 0) a slice stands for, in order; where a slice of step 1 begins and ends *)
Step(k) == IF k = None THEN 1 ELSE k
Begin(n, a, k) == IF a = None THEN (IF k > 0 THEN 0 ELSE n - 1) ELSE Clamp(FromEnd(a, n), IF k > 0 THEN 0 ELSE -1, IF k > 0 THEN n ELSE n - 1)
Stop(n, b, k) == IF b = None THEN (IF k > 0 THEN n ELSE -1) ELSE Clamp(FromEnd(b, n), IF k > 0 THEN 0 ELSE -1, IF k > 0 THEN n ELSE n - 1)
Indices(n, a, b, k0) ==
  LET k == Step(k0) x == Begin(n, a, k) y == Stop(n, b, k)
      m == IF k > 0 THEN (IF y > x THEN (y - x + k - 1) \div k ELSE 0) ELSE (IF x > y THEN (x - y + (-k) - 1) \div (-k) ELSE 0)
  IN [i \in 1..m |-> x + (i - 1) * k]
Range(S) == { S[i] : i \in DOMAIN S }
Without(S, D) == LET keep == SelectSeq([i \in 1..Len(S) |-> i], LAMBDA i : (i - 1) \notin D) IN [j \in 1..Len(keep) |-> S[keep[j]]]
Inserted(S, i, e) == SubSeq(S, 1, i) \o <<e>> \o SubSeq(S, i + 1, Len(S))
Found(S, e) == { i \in DOMAIN S : S[i] = e }
Least(X) == CHOOSE x \in X : \A y \in X : x <= y
(* <<new list, result, elements out, number out>> *)
OK(S, out, num) == <<S, "ok", out, num>>
Err(S, e) == <<S, e, <<>>, 0>>
In(i, S) == i < Len(S) /\ i >= -Len(S)
Bit(b) == IF b THEN 1 ELSE 0
Do(S, op, n, x, f, v) ==
  LET L == Len(S) IN
  CASE op = "get" -> IF In(n[1], S) THEN OK(S, <<S[FromEnd(n[1], L) + 1]>>, 0) ELSE Err(S, "IndexError")
    [] op = "slice" -> LET I == Indices(L, n[1], n[2], n[3]) IN OK(S, [j \in DOMAIN I |-> S[I[j] + 1]], 0)
    [] op = "set" -> IF In(n[1], S) THEN OK([S EXCEPT ![FromEnd(n[1], L) + 1] = x[1]], <<>>, 0) ELSE Err(S, "IndexError")
    [] op = "setslice" ->
         LET k == Step(n[3]) b == Begin(L, n[1], k) e == High(b, Stop(L, n[2], k)) I == Indices(L, n[1], n[2], n[3]) IN
         IF k = 1 THEN OK(SubSeq(S, 1, b) \o x \o SubSeq(S, e + 1, L), <<>>, 0)
         ELSE IF Len(I) # Len(x) THEN Err(S, "ValueError")
         ELSE OK([i \in 1..L |-> IF (i - 1) \in Range(I) THEN x[CHOOSE j \in DOMAIN I : I[j] = i - 1] ELSE S[i]], <<>>, 0)
    [] op = "del" -> IF In(n[1], S) THEN OK(Without(S, {FromEnd(n[1], L)}), <<>>, 0) ELSE Err(S, "IndexError")
    [] op = "delslice" -> OK(Without(S, Range(Indices(L, n[1], n[2], n[3]))), <<>>, 0)
    [] op = "insert" -> OK(Inserted(S, Clamp(FromEnd(n[1], L), 0, L), x[1]), <<>>, 0)
    [] op \in {"append", "add"} -> OK(Append(S, x[1]), <<>>, 0)
    [] op \in {"extend", "iadd"} -> OK(S \o x, <<>>, 0)
    [] op = "double" -> OK(S \o S, <<>>, 0)
    [] op = "assign" -> OK(x, <<>>, 0)
    [] op = "reassign" -> OK(S, <<>>, 0)
    [] op = "pop" -> LET i == IF n[1] = None THEN -1 ELSE n[1] IN
                     IF In(i, S) THEN OK(Without(S, {FromEnd(i, L)}), <<S[FromEnd(i, L) + 1]>>, 0) ELSE Err(S, "IndexError")
    [] op = "remove" -> IF Found(S, x[1]) = {} THEN Err(S, "ValueError") ELSE OK(Without(S, {Least(Found(S, x[1])) - 1}), <<>>, 0)
    [] op = "reverse" -> OK(Rev(S), <<>>, 0)
    [] op = "clear" -> OK(<<>>, <<>>, 0)
    [] op = "index" -> IF Found(S, x[1]) = {} THEN Err(S, "ValueError") ELSE OK(S, <<>>, Least(Found(S, x[1])) - 1)
    [] op = "count" -> OK(S, <<>>, Cardinality(Found(S, x[1])))
    [] op = "contains" -> OK(S, <<>>, Bit(Found(S, x[1]) # {}))
    [] op = "iter" -> OK(S, S, 0)
    [] op = "reversed" -> OK(S, Rev(S), 0)
    [] op = "len" -> OK(S, <<>>, L)
    [] op = "bool" -> OK(S, <<>>, Bit(L > 0))
    [] op = "equal" -> OK(S, <<>>, Bit(S = x))
    [] op = "unequal" -> OK(S, <<>>, Bit(S # x))
    [] op \in {"field", "key"} -> IF In(n[1], S) THEN OK([S EXCEPT ![FromEnd(n[1], L) + 1][f] = v], <<>>, 0) ELSE Err(S, "IndexError")
    [] OTHER -> Err(S, "no such operation")
=============================================================================
