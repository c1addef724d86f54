------------------------------- MODULE J_Wrap -------------------------------
(* kind raw: see RawWrap                                                                                                 *)
(* kind stream: total, ops: [read, n, got, same] (n -1: all), [seek, offset, whence, result], [tell, result]              *)
EXTENDS Judge, RawWrap
(* a forward-only stream *)
RECURSIVE Stream(_, _, _)
Stream(c, j, p) ==
  IF j > Len(c.ops) THEN {}
  ELSE LET o == c.ops[j]
           left == IF p < c.total THEN c.total - p ELSE 0
           n == IF o.op = "read" THEN IF o.n < 0 \/ o.n > left THEN left ELSE o.n ELSE 0
           to == IF o.op = "seek" THEN IF o.whence = 0 THEN o.n ELSE p + o.n ELSE p
           why == "operation " \o ToString(j) \o " " \o o.op
       IN CASE o.op = "read" -> IF o.res = n /\ o.same THEN Stream(c, j + 1, p + n) ELSE {why}
            [] o.op = "tell" -> IF o.res = p THEN Stream(c, j + 1, p) ELSE {why}
            [] o.op = "seek" /\ (o.whence = 2 \/ to < p) -> IF o.res = -2 THEN Stream(c, j + 1, p) ELSE {why}       \* not possible here
            [] OTHER -> IF o.res = to THEN Stream(c, j + 1, to) ELSE {why}
CaseVerdict(c) == CASE c.kind = "failed" -> {c.res}
                    [] c.kind = "raw" -> Raw(c)
                    [] OTHER -> Stream(c, 1, 0)
=============================================================================
