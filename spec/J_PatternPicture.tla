------------------------- MODULE J_PatternPicture ---------------------------
(* case: f, w, h, cs (components), data, pattern: "steps", "bars" (num, den, exact), "given" (base: the bytes under a     *)
(* bar), bar: <<>> or <<[n, num, den, bh]>>                                                                              *)
EXTENDS Judge, PatternPicture
Value(d, at, n) == IF n = 1 THEN d[at + 1] ELSE d[at + 1] + 256 * d[at + 2]
Want(c, F, i, x, y) ==
  LET under == CASE c.pattern = "steps" -> {Steps(F, i, x, CW(F, c.w, i))}
                 [] c.pattern = "bars" -> Bars(F, i, x, CW(F, c.w, i), c.num, c.den, c.exact)
                 [] OTHER -> {Value(c.base, Addr(F, c.cs, i, x, y), F.bpv)}
  IN IF c.bar = <<>> THEN under
     ELSE LET b == c.bar[1] IN IF Barred(F, i, y, c.h, Top(b.n, b.num, b.den, c.h), b.bh) THEN {Paint(F, i)} ELSE under
Wrong(c, F, i, y) == \E x \in 0..(CW(F, c.w, i) - 1) : Value(c.data, Addr(F, c.cs, i, x, y), F.bpv) \notin Want(c, F, i, x, y)
(* bytes that belong to no sample *)
Of(F, c, i, at) == LET k == c.cs[i] IN at >= k.offset /\ k.stride > 0 /\ (at - k.offset) \div k.stride < k.height /\ (at - k.offset) % k.stride < k.width * F.bpv
CaseVerdict(c) ==
  IF c.pattern = "refused" THEN IF c.res = "!ValueError" THEN {} ELSE {"accepted"}
  ELSE IF c.pattern = "failed" THEN {c.res}
  ELSE LET F == Video[c.f]
       IN IF c.pattern # "given" /\ ~Describes(c.f, c.w, c.h, c.cs) THEN {"components"}
          ELSE { "component " \o ToString(p[1]) \o " line " \o ToString(p[2]) :
                   p \in { q \in (1..3) \X (0..(c.h - 1)) : q[2] < CH(F, c.h, q[1]) /\ Wrong(c, F, q[1], q[2]) } }
               \union (IF c.pattern = "given" /\ (Len(c.data) # Len(c.base)
                           \/ \E at \in 1..Len(c.base) : c.data[at] # c.base[at] /\ \A i \in 1..3 : ~Of(F, c, i, at - 1)) THEN {"other bytes"} ELSE {})
=============================================================================
