------------------------------ MODULE IOBytes -------------------------------
(* Byte objects which stand for sections of a shared stream.                                                   *)
(* State: f the stream's contents, pos its position, val: per object <<>> or <<its bytes>> once loaded.          *)
(* secs: per object <<start, length>>.                                                                         *)
(* Event: o (object, 0: the stream's other user), op, n (three integers, None for absent), b (bytes), fault (the *)
(*   stream fails while this happens), res, out, touched (the stream was used), pos (afterwards)                  *)
EXTENDS Integers, Sequences
None == 99999
Sec(f, s) == SubSeq(f, s[1] + 1, IF s[1] + s[2] <= Len(f) THEN s[1] + s[2] ELSE Len(f))
Lower(x, y) == IF x <= y THEN x ELSE y
Higher(x, y) == IF x >= y THEN x ELSE y
Rev(S) == [i \in 1..Len(S) |-> S[Len(S) + 1 - i]]
(* slices *)
Clamp(v, lo, hi) == Higher(lo, Lower(v, hi))
FromEnd(v, n) == IF v < 0 THEN v + n ELSE v
Slice(S, a, b, k0) ==
  LET n == Len(S)
      k == IF k0 = None THEN 1 ELSE k0
      lo == IF k > 0 THEN 0 ELSE -1
      hi == IF k > 0 THEN n ELSE n - 1
      x == IF a = None THEN (IF k > 0 THEN 0 ELSE n - 1) ELSE Clamp(FromEnd(a, n), lo, hi)
      y == IF b = None THEN (IF k > 0 THEN n ELSE -1) ELSE Clamp(FromEnd(b, n), lo, hi)
      m == IF k > 0 THEN (IF y > x THEN (y - x + k - 1) \div k ELSE 0) ELSE (IF x > y THEN (x - y + (-k) - 1) \div (-k) ELSE 0)
  IN [i \in 1..m |-> S[x + (i - 1) * k + 1]]
(* places where b is found, from 0 *)
Places(S, b) == { i \in 0..(Len(S) - Len(b)) : SubSeq(S, i + 1, i + Len(b)) = b }
Least(X) == CHOOSE x \in X : \A y \in X : x <= y
RECURSIVE Greedy(_, _, _)
Greedy(P, w, from) == LET Q == { x \in P : x >= from } IN IF Q = {} THEN 0 ELSE 1 + Greedy(P, w, Least(Q) + w)
CountOf(S, b) == Greedy(Places(S, b), IF Len(b) = 0 THEN 1 ELSE Len(b), 0)
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
Bool(x) == <<IF x THEN 1 ELSE 0>>
(* = # < <= > >= *)
Relations(a, b) == Bool(a = b) \o Bool(a # b)
Orders(a, b) == Bool(Less(a, b)) \o Bool(~Less(b, a)) \o Bool(Less(b, a)) \o Bool(~Less(a, b))
Content(op) == op \notin {"len", "repr", "bool"}
(* result of an operation on the bytes S (T: those of the object named by n[1]) *)
Result(op, n, b, S, T) ==
  LET L == Len(S) IN
  CASE op = "at" -> IF n[1] >= L \/ n[1] < -L THEN <<"IndexError", <<>>>> ELSE <<"ok", <<S[FromEnd(n[1], L) + 1]>>>>
    [] op = "slice" -> <<"ok", Slice(S, n[1], n[2], n[3])>>
    [] op \in {"iter", "bytes", "bytearray", "join", "list", "str"} -> <<"ok", S>>
    [] op = "reversed" -> <<"ok", Rev(S)>>
    [] op = "contains" -> <<"ok", Bool(Places(S, b) # {})>>
    [] op = "has" -> <<"ok", Bool(\E i \in 1..L : S[i] = n[1])>>
    [] op \in {"rel", "relarray"} -> <<"ok", Relations(S, b) \o Orders(S, b)>>
    [] op = "relback" -> <<"ok", Relations(b, S) \o Orders(b, S)>>
    [] op = "reltext" -> <<"ok", <<0, 1>>>>
    [] op = "other" -> <<"ok", Relations(S, T) \o Orders(S, T)>>
    [] op = "find" -> <<"ok", <<IF Places(S, b) = {} THEN -1 ELSE Least(Places(S, b))>>>>
    [] op = "index" -> IF Places(S, b) = {} THEN <<"ValueError", <<>>>> ELSE <<"ok", <<Least(Places(S, b))>>>>
    [] op = "count" -> <<"ok", <<CountOf(S, b)>>>>
    [] op = "starts" -> <<"ok", Bool(Len(b) <= L /\ SubSeq(S, 1, Len(b)) = b)>>
    [] op = "ends" -> <<"ok", Bool(Len(b) <= L /\ SubSeq(S, L - Len(b) + 1, L) = b)>>
    [] op = "hash" -> <<"ok", <<1>>>>                    \* the same as that of the bytes
    [] op = "len" -> <<"ok", <<L>>>>
    [] op = "bool" -> <<"ok", Bool(L > 0)>>
    [] op = "upper" -> <<"ok", [i \in 1..L |-> IF S[i] \in 97..122 THEN S[i] - 32 ELSE S[i]]>>
    [] OTHER -> <<"no such operation", <<>>>>
(* the object after its content was needed: loaded now at the latest, or, where the result did not need it, later *)
Needs(st, o, touched) == IF st.val[o] # <<>> \/ ~touched THEN {st.val} ELSE {}
Next(secs, st, ev) ==
  LET o == ev.o IN
  IF o = 0 THEN
    LET p == ev.n[1] IN
    CASE ev.op = "seek" -> {[st EXCEPT !.pos = p]}
      [] ev.op = "read" -> IF ev.out = SubSeq(st.f, st.pos + 1, Lower(Len(st.f), st.pos + p))
                           THEN {[st EXCEPT !.pos = Higher(st.pos, Lower(Len(st.f), st.pos + p))]} ELSE {}
      [] ev.op = "write" -> IF st.pos > Len(st.f) THEN {}
                            ELSE {[st EXCEPT !.f = SubSeq(@, 1, st.pos) \o ev.b \o SubSeq(@, st.pos + Len(ev.b) + 1, Len(@)),
                                             !.pos = @ + Len(ev.b)]}
      [] OTHER -> {}
  ELSE
    LET used == {o} \union (IF ev.op = "other" THEN {ev.n[1]} ELSE {})
        V(x) == IF st.val[x] # <<>> THEN st.val[x][1] ELSE Sec(st.f, secs[x])
        fresh == { x \in used : st.val[x] = <<>> }
        r == IF ev.op \in {"len", "bool"} /\ st.val[o] = <<>>
             THEN <<"ok", IF ev.op = "len" THEN <<secs[o][2]>> ELSE Bool(secs[o][2] > 0)>>         \* as asked for, whatever is there
             ELSE Result(ev.op, ev.n, ev.b, V(o), IF ev.op = "other" THEN V(ev.n[1]) ELSE <<>>)
        \* once loaded it is shown as its bytes; before that as the section it stands for
        plain == IF ev.op = "repr" THEN ev.out = (IF st.val[o] # <<>> THEN <<1>> \o st.val[o][1] ELSE <<0>>) ELSE (ev.res = r[1] /\ ev.out = r[2])
    IN
    IF ev.pos # st.pos THEN {}                                         \* the position is as it was
    ELSE IF ~Content(ev.op) THEN (IF ~ev.touched /\ ev.res = "ok" /\ plain THEN {st} ELSE {})
    ELSE IF ~ev.touched THEN (IF plain THEN {st} ELSE {})
    ELSE IF fresh = {} THEN {}                                         \* read at most once
    ELSE IF ev.fault /\ ev.res = "fault" THEN {st}
    ELSE IF ~plain THEN {}
    ELSE { [st EXCEPT !.val = [x \in DOMAIN @ |-> IF x \in X THEN <<V(x)>> ELSE @[x]]] : X \in (SUBSET fresh) \ {{}} }
=============================================================================
