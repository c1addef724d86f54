--------------------------- MODULE MC_GrainLists ----------------------------
(* Every short history of a list of the elements 1, 2, 3; replayed on the real lists.                            *)
EXTENDS GrainLists, TLC, Json
CONSTANTS Depth, Emit
VARIABLES L, hist
N3(a, b, c) == <<a, b, c>>
E(op, n, x) == <<op, n, x>>
Ops == { E("get", N3(i, 0, 0), <<>>) : i \in {0, -1, 2} } \union { E("set", N3(i, 0, 0), <<3>>) : i \in {0, -1, 1} }
       \union { E("insert", N3(i, 0, 0), <<2>>) : i \in {0, 1, -1, 5} } \union { E("del", N3(i, 0, 0), <<>>) : i \in {0, -1} }
       \union { E("slice", s, <<>>) : s \in {N3(None, None, None), N3(1, None, None), N3(None, None, -1)} }
       \union { E("setslice", N3(None, None, None), x) : x \in {<<>>, <<1>>, <<1, 2, 3>>} } \union { E("setslice", N3(0, 1, None), <<1, 2>>), E("setslice", N3(None, None, 2), <<3>>) }
       \union { E("delslice", s, <<>>) : s \in {N3(None, None, None), N3(0, 1, None), N3(None, None, 2)} }
       \union { E("append", N3(0, 0, 0), <<1>>), E("extend", N3(0, 0, 0), <<1, 2>>), E("extend", N3(0, 0, 0), <<>>), E("iadd", N3(0, 0, 0), <<3>>),
                E("double", N3(0, 0, 0), <<>>), E("assign", N3(0, 0, 0), <<>>), E("assign", N3(0, 0, 0), <<2, 1>>), E("reassign", N3(0, 0, 0), <<>>),
                E("pop", N3(None, 0, 0), <<>>), E("pop", N3(0, 0, 0), <<>>), E("remove", N3(0, 0, 0), <<1>>), E("reverse", N3(0, 0, 0), <<>>),
                E("clear", N3(0, 0, 0), <<>>), E("index", N3(0, 0, 0), <<2>>), E("count", N3(0, 0, 0), <<1>>), E("contains", N3(0, 0, 0), <<3>>),
                E("iter", N3(0, 0, 0), <<>>), E("reversed", N3(0, 0, 0), <<>>), E("len", N3(0, 0, 0), <<>>), E("equal", N3(0, 0, 0), <<1, 2>>) }
R(e) == Do(L, e[1], e[2], e[3], 1, 3)
Init == L \in {<<>>, <<1, 2>>} /\ hist = <<L>>
MNext == Len(hist) <= Depth /\ Len(L) < 9 /\ \E e \in Ops : L' = R(e)[1] /\ hist' = Append(hist, e)
(* laws of lists *)
Laws == /\ \A e \in Ops : R(e)[2] # "ok" => R(e)[1] = L
        /\ \A e \in Ops : e[1] \in {"get", "slice", "index", "count", "contains", "iter", "reversed", "len", "equal"} => R(e)[1] = L
        /\ \A e \in Ops : (e[1] \in {"del", "pop", "remove"} /\ R(e)[2] = "ok") => Len(R(e)[1]) = Len(L) - 1
        /\ \A e \in Ops : e[1] \in {"insert", "append"} => Len(R(e)[1]) = Len(L) + 1 /\ Cardinality(Found(R(e)[1], e[3][1])) = Cardinality(Found(L, e[3][1])) + 1
        /\ Rev(Rev(L)) = L /\ Do(L, "slice", N3(None, None, -1), <<>>, 1, 1)[3] = Rev(L)
        /\ \A a \in -3..4 : \A b \in -3..4 :
             LET d == Do(L, "delslice", N3(a, b, None), <<>>, 1, 1)[1] IN
             /\ Do(L, "setslice", N3(a, b, None), <<>>, 1, 1)[1] = d
             /\ Len(d) + Len(Do(L, "slice", N3(a, b, None), <<>>, 1, 1)[3]) = Len(L)
             /\ Do(L, "setslice", N3(a, b, None), Do(L, "slice", N3(a, b, None), <<>>, 1, 1)[3], 1, 1)[1] = L
             /\ \A k \in {-2, -1, 2} : Do(L, "setslice", N3(a, b, k), Do(L, "slice", N3(a, b, k), <<>>, 1, 1)[3], 1, 1)[1] = L
Printed == (Emit /\ Len(hist) = Depth + 1) => PrintT("BEH " \o ToJson(hist))
=============================================================================
