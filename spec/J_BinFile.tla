----------------------------- MODULE J_BinFile ------------------------------
(* C07: recorded histories of real files.                                                                      *)
(* case: kind, c0, evs (events of BinFile plus tell, and val: <<>> or <<contents>> observed afterwards)         *)
EXTENDS Judge, BinFile, FiniteSets
Shown(c, st) == IF c.kind = "both" THEN st.w ELSE st.c
Agrees(c, st, ev) == ev.tell = st.p /\ (ev.val = <<>> \/ ev.val[1] = Shown(c, st))
RECURSIVE Run(_, _, _)
Run(c, S, i) ==
  IF i > Len(c.evs) THEN {}
  ELSE LET ev == c.evs[i]
           N == UNION { IF c.kind = "both" THEN BothNext(s, ev) ELSE Next(c.kind, s, ev) : s \in S }
           G == { s \in N : Agrees(c, s, ev) }
       IN IF N = {} THEN {ToString(<<i, ev.op, ev.n, ev.whence, "result", ev.res, ev.ret, "read", Len(ev.out)>>)}
          ELSE IF G = {} THEN {ToString(<<i, ev.op, ev.n, ev.whence, "position", ev.tell, { s.p : s \in N },
                                         "contents agree", \E s \in N : ev.val = <<>> \/ ev.val[1] = Shown(c, s)>>)}
          ELSE Run(c, G, i + 1)
CaseVerdict(c) == Run(c, {IF c.kind = "both" THEN [c |-> c.c0, p |-> 0, q |-> 0, i |-> 0, w |-> <<>>] ELSE [c |-> c.c0, p |-> 0, q |-> 0]}, 1)
=============================================================================
