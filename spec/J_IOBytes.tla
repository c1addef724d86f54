----------------------------- MODULE J_IOBytes ------------------------------
(* C08: recorded histories of real lazy byte objects.  case: f, secs, evs                                       *)
EXTENDS Judge, IOBytes
RECURSIVE Run(_, _, _)
Run(c, S, i) ==
  IF i > Len(c.evs) THEN {}
  ELSE LET ev == c.evs[i]
           N == UNION { Next(c.secs, s, ev) : s \in S }
           G == { s \in N : s.pos = ev.pos }
       IN IF G = {} THEN {ToString(<<i, ev.op, ev.n, "of", ev.o, "gave", ev.res, Len(ev.out), "stream used", ev.touched, ev.pos>>)}
          ELSE Run(c, G, i + 1)
CaseVerdict(c) == IF c.early THEN {"the stream was used before any operation"}
                  ELSE Run(c, {[f |-> c.f, pos |-> 0, val |-> [x \in DOMAIN c.secs |-> <<>>]]}, 1)
=============================================================================
