--------------------------- MODULE MC_NumpyViews ----------------------------
(* Every short history of writes through views, raw writes, assignments, copies and further grains on the same data, *)
(* for every format (Emit: one).                                                                                     *)
EXTENDS NumpyViews, TLC, Json
CONSTANTS Depth, Emit, Names1, Wd, Ht
VARIABLES S, hist
Layout(f) == IF f \in DOMAIN Video THEN [video |-> TRUE, f |-> f, cs |-> Tight(f, Wd, Ht), channels |-> 0, samples |-> 0]
             ELSE [video |-> FALSE, f |-> f, cs |-> <<>>, channels |-> Wd, samples |-> Ht]
Bytes(L) == IF L.video THEN Total(L.cs) ELSE AudioBytes(Audio[L.f], L.channels, L.samples)
Blank(L) == [k \in 1..Bytes(L) |-> k % 251]
Val(L) == [k \in 1..Type(L)[2] |-> 252 + (k % 3)]
E0 == [op |-> "read", i |-> 1, c |-> 0, x |-> 0, y |-> 0, v |-> <<>>, w |-> FALSE, sh |-> FALSE]
Has == { i \in 1..Len(S.g) : S.g[i] # 0 }
Elems(L) == { <<c, x, y>> : c \in 1..Views(L), x \in 0..(Wd - 1 + Ht), y \in 0..(Ht - 1) }
Sets == IF S24(S.L) \/ Views(S.L) = 0 THEN {}
        ELSE { [E0 EXCEPT !.op = "set", !.i = i, !.c = t[1], !.x = t[2], !.y = t[3], !.v = Val(S.L)] : i \in Has,
               t \in { t \in Elems(S.L) : t[2] < Shape(S.L, t[1])[1] /\ (IF S.L.video THEN t[3] < Shape(S.L, t[1])[2] ELSE t[3] = 0) } }
Some(X) == IF Emit THEN { e \in X : e.x = Shape(S.L, e.c)[1] - 1 /\ e.y = 0 /\ e.c = 2 } ELSE X
Ops == Some(Sets)
       \union { [E0 EXCEPT !.op = "raw", !.i = i, !.x = x, !.v = [k \in 1..RawType(S.L)[2] |-> 255]] : i \in Has, x \in {0, (Bytes(S.L) \div RawType(S.L)[2]) - 1} }
       \union { [E0 EXCEPT !.op = o, !.i = i, !.v = [k \in 1..Bytes(S.L) |-> 100 + (k % 99)], !.w = (o = "data")] : o \in {"data", "fetch"}, i \in 1..Len(S.g) }
       \union { [E0 EXCEPT !.op = "none", !.i = i] : i \in 1..Len(S.g) }
       \union { [E0 EXCEPT !.op = o, !.i = i, !.w = TRUE, !.sh = TRUE] : o \in {"deep", "copy"}, i \in { i \in 1..Len(S.g) : Len(S.g) < 3 } }
       \union { [E0 EXCEPT !.op = "wrap", !.i = i] : i \in { i \in Has : Len(S.g) < 3 } }
Init == \E f \in Names1 : S = [L |-> Layout(f), B |-> <<[v |-> Blank(Layout(f)), w |-> TRUE]>>, g |-> <<1>>] /\ hist = <<>>
MNext == Len(hist) < Depth /\ \E e \in Ops : S' = Do(S, e)[1] /\ hist' = IF Emit THEN Append(hist, <<e.op, e.i, e.x>>) ELSE Append(hist, 0)
Changed(a, b) == { k \in 1..Len(a) : a[k] # b[k] }
SetLaw(e) ==
  LET R == Do(S, e)[1]
      L == S.L
      n == Item(L)
  IN IF ~Buf(S, e.i).w THEN R = S ELSE
     \A j \in Has :
       /\ S.g[j] # S.g[e.i] => Buf(R, j) = Buf(S, j)
       /\ S.g[j] = S.g[e.i] => /\ Changed(Buf(S, j).v, Buf(R, j).v) \subseteq (At(L, e.c, e.x, e.y) + 1)..(At(L, e.c, e.x, e.y) + n)
                               /\ \A c \in 1..Views(L) : LET a == Dump(L, Buf(S, j).v, c)
                                                             b == Dump(L, Buf(R, j).v, c)
                                                             o == (e.y * Shape(L, c)[1] + e.x) * n
                                                         IN IF c # e.c THEN a = b
                                                            ELSE /\ Changed(a, b) \subseteq (o + 1)..(o + n)
                                                                 /\ \A k \in 1..n : b[o + k] = e.v[k]
Laws == /\ \A e \in Sets : SetLaw(e)
        /\ \A e \in Ops : /\ e.op \in {"deep", "copy", "wrap"} /\ S.g[e.i] # 0 => LET R == Do(S, e)[1] IN Buf(R, Len(R.g)).v = Buf(S, e.i).v
                          /\ e.op \in {"deep", "copy", "wrap", "none", "data", "fetch"} => \A j \in Has \ {e.i} : Buf(Do(S, e)[1], j) = Buf(S, j)
        /\ \A j \in Has : \A c \in 1..Views(S.L) : Len(Dump(S.L, Buf(S, j).v, c)) = Size(S.L, c) * Type(S.L)[2]
Printed == (Emit /\ Len(hist) = Depth) => PrintT("BEH " \o ToJson(hist))
=============================================================================
