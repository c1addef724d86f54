----------------------------- MODULE NumpyViews -----------------------------
(* Grains whose data is seen as arrays: each component of a picture, each channel of audio is a view of the buffer. *)
(*   L  what the metadata says: video, f, cs (components) / channels, samples                                       *)
(*   S: L; B buffers [v: bytes, w: writable]; g: per grain the buffer it shows (0: none)                            *)
EXTENDS Formats
Views(L) == IF ~L.video THEN L.channels ELSE IF L.f = "v210" THEN 0 ELSE IF Video[L.f].kind = "planar" THEN Len(L.cs) ELSE 3
Shape(L, i) == IF ~L.video THEN <<L.samples>>
               ELSE IF Video[L.f].kind = "planar" THEN <<L.cs[i].width, L.cs[i].height>>
               ELSE <<CW(Video[L.f], L.cs[1].width, i), L.cs[1].height>>
Item(L) == IF L.video THEN Video[L.f].bpv ELSE Audio[L.f].bytes          \* bytes of a sample in the data
S24(L) == ~L.video /\ L.f \in {"S24_PLANES", "S24_PAIRS", "S24_INTERLEAVED"}
Type(L) == IF L.video THEN <<"u", Item(L)>> ELSE IF S24(L) THEN <<"i", 4>> ELSE IF Audio[L.f].type = "int" THEN <<"i", Item(L)>> ELSE <<"f", Item(L)>>
RawType(L) == IF S24(L) THEN <<"u", 1>> ELSE Type(L)
At(L, i, x, y) == IF L.video THEN Addr(Video[L.f], L.cs, i, x, y) ELSE AudioAt(Audio[L.f], L.channels, L.samples, i - 1, x) * Item(L)
Size(L, i) == IF L.video THEN Shape(L, i)[1] * Shape(L, i)[2] ELSE L.samples
(* the view's values one line after the other, as little-endian bytes; 24 bits come in the upper part of 32         *)
Dump(L, b, i) ==
  LET w == Shape(L, i)[1]
      n == Type(L)[2]
      val(k) == LET e == k \div n IN At(L, i, e % w, e \div w)
      lead == IF Item(L) = 3 THEN 1 ELSE 0
  IN IF S24(L) THEN [k \in 1..(Size(L, i) * 4) |-> IF (k - 1) % 4 = 0 THEN 0 ELSE b[val(k - 1) + ((k - 1) % 4)]]
     ELSE [k \in 1..(Size(L, i) * n) |-> b[val(k - 1) + ((k - 1) % n) + 1]]
Order(L) == IF ~L.video \/ L.f = "v210" THEN "X" ELSE Video[L.f].order
Names(o) == CASE o = "YUV" -> [Y |-> 1, U |-> 2, V |-> 3, R |-> 0, G |-> 0, B |-> 0] [] o = "RGB" -> [Y |-> 0, U |-> 0, V |-> 0, R |-> 1, G |-> 2, B |-> 3]
              [] o = "BGR" -> [Y |-> 0, U |-> 0, V |-> 0, R |-> 3, G |-> 2, B |-> 1] [] OTHER -> [Y |-> 0, U |-> 0, V |-> 0, R |-> 0, G |-> 0, B |-> 0]
Patch(b, at, v) == [k \in 1..Len(b) |-> IF k > at /\ k <= at + Len(v) THEN v[k - at] ELSE b[k]]
RECURSIVE Fill(_, _, _, _, _)
Fill(L, b, i, e, v) == IF e = Size(L, i) THEN b
                       ELSE LET w == Shape(L, i)[1] IN Fill(L, Patch(b, At(L, i, e % w, e \div w), v), i, e + 1, v)
Buf(S, i) == S.B[S.g[i]]
Write(S, i, b) == IF Buf(S, i).w THEN <<[S EXCEPT !.B[S.g[i]].v = b], "ok">> ELSE <<S, "ValueError">>
Show(S, i, v, w) == [S EXCEPT !.B = Append(@, [v |-> v, w |-> w]), !.g[i] = Len(S.B) + 1]
(* e: op, i grain, c component, x, y, v bytes, w writable, sh shared *)
Do(S, e) ==
  LET L == S.L IN
  CASE e.op = "set" -> Write(S, e.i, Patch(Buf(S, e.i).v, At(L, e.c, e.x, e.y), e.v))
    [] e.op = "fill" -> Write(S, e.i, Fill(L, Buf(S, e.i).v, e.c, 0, e.v))
    [] e.op = "raw" -> Write(S, e.i, Patch(Buf(S, e.i).v, e.x * RawType(L)[2], e.v))
    [] e.op \in {"data", "fetch"} -> <<Show(S, e.i, e.v, e.w), "ok">>
    [] e.op = "none" -> <<[S EXCEPT !.g[e.i] = 0], "ok">>
    [] e.op \in {"deep", "copy"} ->
         <<IF S.g[e.i] = 0 THEN [S EXCEPT !.g = Append(@, 0)]
           ELSE IF e.op = "copy" /\ e.sh THEN [S EXCEPT !.g = Append(@, S.g[e.i])]
           ELSE [S EXCEPT !.B = Append(@, [v |-> Buf(S, e.i).v, w |-> e.w]), !.g = Append(@, Len(S.B) + 1)], "ok">>
    [] e.op = "wrap" -> <<[S EXCEPT !.g = Append(@, S.g[e.i])], "ok">>
    [] OTHER -> <<S, "ok">>
=============================================================================
