------------------------------ MODULE BinFile -------------------------------
(* Asynchronous binary files.  kind: "mem" in-memory file, "wrap" wrapper around an ordinary file, "reader" and  *)
(* "writer" the two directions of a network stream, "both" a stream used in both.                              *)
(* State: c contents (reader: everything the stream will deliver; writer: what the peer has got), p logical     *)
(*   position, q (streams) bytes really consumed or delivered                                                  *)
(* Event: op, n (size or offset; -1 all), whence, bytes (written), res "ok" | "eof" | "unsupported" | "value" |  *)
(*   other, out (bytes read), ret (returned number, -1 none)                                                   *)
EXTENDS Integers, Sequences
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
ZeroSeq(n) == [i \in 1..n |-> 0]
From(c, p, n) == SubSeq(c, p + 1, Min2(Len(c), p + n))
Left(st) == Max2(0, Len(st.c) - st.p)
Grown(c, n) == IF n > Len(c) THEN c \o ZeroSeq(n - Len(c)) ELSE c
Put(c, p, b) == IF b = <<>> THEN c
                ELSE LET g == Grown(c, p) IN SubSeq(g, 1, p) \o b \o SubSeq(g, p + Len(b) + 1, Len(g))
Stream(kind) == kind \in {"reader", "writer"}
Target(st, ev) == IF ev.whence = 0 THEN ev.n ELSE IF ev.whence = 1 THEN st.p + ev.n ELSE Len(st.c) + ev.n
Reads == {"read", "readall", "readinto"}
(* the states this event may leave; empty: it cannot happen *)
Next(kind, st, ev) ==
  LET at(p) == [st EXCEPT !.p = p, !.q = Max2(@, p)]
      n == IF ev.op = "readall" \/ (ev.op = "read" /\ ev.n = -1) THEN Left(st) ELSE ev.n
      got == From(st.c, st.p, n)
  IN
  CASE ev.op \in Reads /\ kind = "writer" -> IF ev.res = "unsupported" THEN {st} ELSE {}
    [] ev.op = "write" /\ kind = "reader" -> IF ev.res = "unsupported" THEN {st} ELSE {}
    [] ev.op = "truncate" /\ Stream(kind) -> IF ev.res = "unsupported" THEN {st} ELSE {}
    [] ev.op = "read" /\ kind = "mem" /\ n > Left(st) ->
         IF ev.res = "eof" THEN {st, at(Max2(st.p, Len(st.c)))} ELSE {}
    [] ev.op \in Reads ->
         IF ev.res = "ok" /\ ev.out = got /\ (ev.op = "readinto" => ev.ret = Len(got)) THEN {at(st.p + Len(got))} ELSE {}
    [] ev.op = "write" ->
         IF ev.res # "ok" \/ ev.ret # Len(ev.bytes) THEN {}
         ELSE IF ev.bytes = <<>> /\ st.p > Len(st.c) /\ kind = "writer"
         THEN {st, [at(st.p) EXCEPT !.c = Grown(st.c, st.p)]}
         ELSE {[at(st.p + Len(ev.bytes)) EXCEPT !.c = Put(st.c, st.p, ev.bytes)]}
    [] ev.op = "truncate" ->
         LET s == IF ev.n = -1 THEN st.p ELSE ev.n IN
         IF s < 0 THEN (IF ev.res = "value" THEN {st} ELSE {})
         ELSE IF ev.res # "ok" \/ ev.ret # s THEN {}
         ELSE IF s <= Len(st.c) THEN {[st EXCEPT !.c = SubSeq(@, 1, s)]}
         ELSE {st, [st EXCEPT !.c = Grown(@, s)]}          \* ordinary files extend, in-memory ones may not
    [] ev.op = "seek" /\ ~Stream(kind) ->
         LET t == Target(st, ev) IN
         IF t < 0 THEN (IF ev.res = "value" THEN {st}
                           ELSE IF ev.res = "ok" /\ ev.ret = 0 /\ ev.whence # 0 THEN {[st EXCEPT !.p = 0]} ELSE {})
         ELSE IF ev.res = "ok" /\ ev.ret = t THEN {[st EXCEPT !.p = t]} ELSE {}
    [] ev.op = "seek" ->
         LET t == Target(st, ev)
             no == IF ev.res = "unsupported" THEN {st} ELSE {}
             yes == IF ev.res = "ok" /\ ev.ret = t THEN {[st EXCEPT !.p = t]} ELSE {}
         IN IF ev.whence = 2 THEN no
            ELSE IF t >= st.p THEN yes
            ELSE IF t >= st.q THEN no \union yes           \* back, but not before what has really been passed
            ELSE no
    [] ev.op = "open" -> IF ev.res # "ok" THEN {} ELSE IF kind = "mem" THEN {[st EXCEPT !.p = 0]} ELSE {st}
    [] ev.op = "flags" -> IF ev.res = "ok" /\ ev.out = (CASE kind = "reader" -> <<1, 0, 0, 1, 0>>
                                                          [] kind = "writer" -> <<0, 1, 0, 1, 0>>
                                                          [] ev.bytes # <<>> ->      \* what the ordinary file says of itself
                                                               ev.bytes \o <<ev.bytes[3], ev.bytes[3]>>
                                                          [] OTHER -> <<1, 1, 1, 1, 1>>) THEN {st} ELSE {}
    [] OTHER -> {}
(* A stream used in both directions has one position, which whatever is read and whatever is written advances;   *)
(* skipping skips in both.  i: bytes of c passed by the reader, w: what the peer has got                          *)
Aligned(st) == IF st.p <= st.q THEN st
               ELSE [st EXCEPT !.i = Min2(Len(st.c), @ + (st.p - st.q)), !.w = @ \o ZeroSeq(st.p - st.q), !.q = st.p]
BothNext(st, ev) ==
  LET a == Aligned(st)
      n == IF ev.op = "readall" \/ (ev.op = "read" /\ ev.n = -1) THEN Len(a.c) - a.i ELSE ev.n
      got == From(a.c, a.i, n)
      to(x, k) == [x EXCEPT !.p = a.p + k, !.q = a.p + k]
  IN
  CASE ev.op \in Reads ->
         IF ev.res = "ok" /\ ev.out = got /\ (ev.op = "readinto" => ev.ret = Len(got)) THEN {to([a EXCEPT !.i = @ + Len(got)], Len(got))} ELSE {}
    [] ev.op = "write" ->
         IF ev.res # "ok" \/ ev.ret # Len(ev.bytes) THEN {}
         ELSE {to([a EXCEPT !.w = @ \o ev.bytes], Len(ev.bytes))} \union (IF ev.bytes = <<>> THEN {st} ELSE {})
    [] ev.op = "truncate" -> IF ev.res = "unsupported" THEN {st} ELSE {}
    [] ev.op = "seek" ->
         LET t == IF ev.whence = 0 THEN ev.n ELSE st.p + ev.n
             no == IF ev.res = "unsupported" THEN {st} ELSE {}
             yes == IF ev.res = "ok" /\ ev.ret = t THEN {[st EXCEPT !.p = t]} ELSE {}
         IN IF ev.whence = 2 THEN no ELSE IF t >= st.p THEN yes ELSE IF t >= st.q THEN no \union yes ELSE no
    [] ev.op = "flags" -> IF ev.res = "ok" /\ ev.out = <<1, 1, 0, 1, 0>> THEN {st} ELSE {}
    [] OTHER -> {}
=============================================================================
