------------------------------ MODULE GsfLoad -------------------------------
(* A session reading grains whose data may be loaded later.                                                    *)
(* file: seq of [lid, n (length of the data), g] ; kind [async, seek]                                          *)
(* State: pos grains passed; open; mode, ids (of the current iteration; ids <<>> or <<set as sequence>>);        *)
(*   h: the grains handed out, in order: [i (index in the file), mode, d], d "now" read at once, "pend" deferred, *)
(*   "have" loaded, "gone" permanently empty, "none" not to be read, "may" deferred with an unknown outcome      *)
EXTENDS Integers, Sequences, FiniteSets
Start == [pos |-> 0, open |-> TRUE, mode |-> "imm", ids |-> <<>>, h |-> <<>>]
Wanted(st, lid) == st.ids = <<>> \/ \E j \in 1..Len(st.ids[1]) : st.ids[1][j] = lid
(* index of the grain the iteration yields next; 0: no more *)
NextIdx(file, st) ==
  LET c == { i \in st.pos + 1..Len(file) : Wanted(st, file[i].lid) }
  IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j
Deferring(m) == m \in {"defer", "load-defer"}
Status(file, kind, st, i) ==
  IF st.mode = "never" THEN "none"
  ELSE IF Deferring(st.mode) /\ kind.seek /\ file[i].n > 0 THEN "pend"
  ELSE "now"
(* events *)
Iter(st, mode, ids) == [st EXCEPT !.mode = mode, !.ids = ids]
Advance(file, kind, st) ==
  LET i == NextIdx(file, st)
  IN IF i = 0 THEN [st EXCEPT !.pos = Len(file)]
     ELSE [st EXCEPT !.pos = i, !.h = Append(@, [i |-> i, mode |-> st.mode, d |-> Status(file, kind, st, i)])]
(* what may be seen of handle k's data: subset of {"full", "empty"} *)
Seen(kind, st, k, awaited) ==
  LET x == st.h[k] IN
  CASE x.d \in {"now", "have"} -> {"full"}
    [] x.d \in {"none", "gone"} -> {"empty"}
    [] x.d = "may" -> {"full", "empty"}
    [] OTHER -> IF ~kind.async THEN (IF st.open THEN {"full"} ELSE {"full", "empty"})
                ELSE IF awaited THEN {"full"} ELSE {"empty"}
Looked(kind, st, k, awaited, full) ==
  IF st.h[k].d = "may" \/ (st.h[k].d = "pend" /\ kind.async /\ awaited)
  THEN [st EXCEPT !.h[k].d = IF full THEN "have" ELSE "gone"]
  ELSE st
(* lengths that may be reported *)
Lens(file, kind, st, k) ==
  LET n == file[st.h[k].i].n IN
  CASE st.h[k].d \in {"now", "have", "pend"} -> {n}
    [] st.h[k].d = "may" -> {n, 0}
    [] OTHER -> {0}
(* leaving the session; busy: handles that other tasks are awaiting meanwhile *)
Exit(kind, st, busy) ==
  [st EXCEPT !.open = FALSE,
             !.h = [k \in 1..Len(st.h) |->
                     IF st.h[k].d # "pend" \/ ~kind.async THEN st.h[k]
                     ELSE [st.h[k] EXCEPT !.d = IF st.h[k].mode = "load-defer" THEN "have"
                                                ELSE IF k \in busy THEN "may" ELSE "gone"]]]
=============================================================================
