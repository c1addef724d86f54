----------------------------- MODULE GrainData ------------------------------
(* The data element of a grain and what can be deferred, replaced, awaited, copied and changed about it.          *)
(*   data contents are numbers: 0 none, 1 blank, 2k and 2k+1 differ in one place (changing the data in place flips) *)
(*   grain: buf  its buffer (0: none); an event grain always has one, its payload in the metadata                   *)
(*          pend its pending source (0: none)        plen the lengths it may announce while pending                  *)
(*          fc, lc  the metadata cells holding an attribute of the top level and one of a nested structure            *)
(*   B, M   contents of the buffers and metadata cells (copies may share them, deep copies may not)                  *)
(*   src    per source: fin <<>> or <<"ok", v>> or <<"err", 0>>, n how often awaited                                  *)
(*   T      waiting tasks: g, s, st ("wait", "ret", "err", "cancel"), v                                               *)
EXTENDS Integers, Sequences, FiniteSets
NewSrc == [fin |-> <<>>, n |-> 0]
Val(S, i) == IF S.g[i].pend # 0 \/ S.g[i].buf = 0 THEN 0 ELSE S.B[S.g[i].buf]
Flip(v) == IF v % 2 = 0 THEN v + 1 ELSE v - 1
Fresh(ev, v, s, nsrc) ==              \* a new grain with data v, or source s
  [ev |-> ev, B |-> IF v = 0 THEN <<>> ELSE <<v>>, M |-> <<1, 2>>, T |-> <<>>, src |-> [k \in 1..nsrc |-> NewSrc],
   g |-> <<[buf |-> IF v = 0 THEN 0 ELSE 1, pend |-> s, plen |-> {0}, fc |-> 1, lc |-> 2]>>]
(* assigning data; an event grain's payload is replaced where it is *)
Put(S, i, v) ==
  IF S.ev THEN IF v = 0 THEN [S EXCEPT !.g[i].pend = 0] ELSE [S EXCEPT !.g[i].pend = 0, !.B[S.g[i].buf] = v]
  ELSE IF v = 0 THEN [S EXCEPT !.g[i].pend = 0, !.g[i].buf = 0]
  ELSE [S EXCEPT !.g[i].pend = 0, !.g[i].buf = Len(S.B) + 1, !.B = Append(S.B, v)]
Defer(S, i, s) == [S EXCEPT !.g[i].pend = s, !.g[i].plen = @ \union {0}, !.g[i].buf = IF S.ev THEN @ ELSE 0]
(* the result of source s reaches the grain if the grain is still waiting for it *)
Land(S, i, s) == IF S.g[i].pend = s /\ S.src[s].fin[1] = "ok" THEN Put(S, i, S.src[s].fin[2]) ELSE S
End(S, t) == IF S.src[S.T[t].s].fin[1] = "err" THEN [S EXCEPT !.T[t].st = "err"]
             ELSE [S EXCEPT !.T[t].st = "ret", !.T[t].v = Val(S, S.T[t].g)]
Wait(S, i) ==
  LET s == S.g[i].pend
      t == Len(S.T) + 1
      S1 == [S EXCEPT !.T = Append(@, [g |-> i, s |-> s, st |-> "wait", v |-> 0])]
  IN IF s = 0 THEN [S1 EXCEPT !.T[t].st = "ret", !.T[t].v = Val(S, i)]
     ELSE LET S2 == [S1 EXCEPT !.src[s].n = 1] IN IF S.src[s].fin = <<>> THEN S2 ELSE End(Land(S2, i, s), t)
RECURSIVE Lands(_, _, _)
RECURSIVE Ends(_, _, _)
Lands(S, s, t) == IF t > Len(S.T) THEN S ELSE Lands(IF S.T[t].st = "wait" /\ S.T[t].s = s THEN Land(S, S.T[t].g, s) ELSE S, s, t + 1)
Ends(S, s, t) == IF t > Len(S.T) THEN S ELSE Ends(IF S.T[t].st = "wait" /\ S.T[t].s = s THEN End(S, t) ELSE S, s, t + 1)
Finish(S, s, f) == LET S1 == [S EXCEPT !.src[s].fin = f] IN Ends(Lands(S1, s, 1), s, 1)
(* copies: which parts are shared is left open for a plain copy (sh: buffer, top level, nested) *)
Copy(S, i, sh) ==
  LET v == Val(S, i)
      nb == Len(S.B)
      nm == Len(S.M)
  IN [S EXCEPT !.B = IF v = 0 THEN @ ELSE Append(@, v), !.M = @ \o <<S.M[S.g[i].fc], S.M[S.g[i].lc]>>,
               !.g = Append(@, [buf |-> IF v = 0 THEN 0 ELSE IF sh[1] THEN S.g[i].buf ELSE nb + 1, pend |-> 0, plen |-> {0},
                                fc |-> IF sh[2] THEN S.g[i].fc ELSE nm + 1, lc |-> IF sh[3] THEN S.g[i].lc ELSE nm + 2])]
(* <<state, outcome>> *)
Do(S, op, i, a, sh) ==
  IF op = "data" THEN <<Put(S, i, a), "ok">>
  ELSE IF op = "defer" THEN <<Defer(S, i, a), "ok">>
  ELSE IF op = "wait" THEN <<Wait(S, i), "ok">>
  ELSE IF op = "fin" THEN <<Finish(S, i, <<"ok", a>>), "ok">>
  ELSE IF op = "fail" THEN <<Finish(S, i, <<"err", 0>>), "ok">>
  ELSE IF op = "cancel" THEN <<IF S.T[i].st = "wait" THEN [S EXCEPT !.T[i].st = "cancel"] ELSE S, "ok">>
  ELSE IF op = "setlen" THEN IF S.g[i].pend # 0 THEN <<[S EXCEPT !.g[i].plen = {a}], "ok">> ELSE <<S, "AttributeError">>
  ELSE IF op = "mutate" THEN <<[S EXCEPT !.B[S.g[i].buf] = Flip(@)], "ok">>
  ELSE IF op = "attr" THEN <<[S EXCEPT !.M[S.g[i].fc] = a], "ok">>
  ELSE IF op = "nested" THEN <<[S EXCEPT !.M[S.g[i].lc] = a], "ok">>
  ELSE IF op \in {"copy", "deep"} THEN <<Copy(S, i, sh), "ok">>
  ELSE <<S, "ok">>                                              \* reading
Same(S, i, j) == Val(S, i) = Val(S, j) /\ S.M[S.g[i].fc] = S.M[S.g[j].fc] /\ S.M[S.g[i].lc] = S.M[S.g[j].lc]
                 /\ (S.ev => S.B[S.g[i].buf] = S.B[S.g[j].buf])
=============================================================================
