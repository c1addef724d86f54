--------------------------- MODULE J_BlockReader ----------------------------
(* C26: recorded sessions of block readers.  case: lo, bytes, p0 (where the first block is made), evs: each an operation     *)
(* [op, n, null, want, strict] and what was seen of it: res, off, val, kids [tag, size, start], then tell (of the file       *)
(* itself), and left, tag, size, start of the innermost block (left <<>> in no block).                                       *)
EXTENDS Judge, BlockReader
Same(op, want, got) == CASE want = AnyTime /\ op \in {"timestamp", "timestamp7"} -> TRUE
                         [] op = "rational" -> Len(got) = 2 /\ RatEq(want, got)
                         [] OTHER -> want = got
Lost(s) == \E i \in 1..Len(s.blocks) : s.blocks[i].size >= Far
Kid(k) == <<k.tag, k.size, k.start>>
Bad(r, ev) ==
  LET s == r.s
      b == Top(s)
  IN IF r.res = "beyond" THEN (IF ev.res # "ok" \/ ev.val = <<<<>>>> THEN {} ELSE {"read beyond the block"})
     ELSE IF ev.res # r.res THEN {"result " \o ev.res}
     ELSE IF r.res = "decode" /\ ev.off # r.off THEN {"offset " \o ToString(ev.off)}
     ELSE IF Len(ev.kids) # Len(r.kids) \/ (\E i \in 1..Len(r.kids) : Kid(ev.kids[i]) # Kid(r.kids[i])) THEN {"child blocks"}
     ELSE IF r.res # "ok" THEN {}
     ELSE (IF Same(ev.op, r.val, ev.val) THEN {} ELSE {"value"})
          \union (IF ev.tell = s.fs[1].p THEN {} ELSE {"position " \o ToString(ev.tell)})
          \union (IF ev.left = (IF In(s) THEN <<Left(b, File(s))>> ELSE <<>>) THEN {} ELSE {"remaining " \o ToString(ev.left)})
          \union (IF ~In(s) \/ Kid(ev) = Kid(b) THEN {} ELSE {"block"})
RECURSIVE Run(_, _, _)
Run(c, s, i) ==
  IF i > Len(c.evs) THEN {}
  ELSE LET ev == c.evs[i]
           r == Do(s, ev)
           x == Bad(r, ev)
       IN IF Lost(r.s) \/ (\E k \in 1..Len(r.kids) : r.kids[k].size >= Far) THEN {}          \* sizes beyond this arithmetic
          ELSE IF x # {} THEN {ToString(<<i, ev.op, ev.n, x>>)}
          ELSE Run(c, r.s, i + 1)
CaseVerdict(c) == Run(c, Session(c.lo, c.bytes, c.p0), 1)
=============================================================================
