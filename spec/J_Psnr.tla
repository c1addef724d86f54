------------------------------- MODULE J_Psnr -------------------------------
(* C27.  kind "ratio": La, Lb layouts (as in NumpyViews), a, b the data, max (<<>> or <<max>>), got (<<>> for infinite or   *)
(* <<millionths of a decibel>>, per view), back the same the other way round, still: the grains as they were.               *)
(* kind "refused": fa, fb <<type, format, width or samples, height or channels, compressed>>, res.                          *)
EXTENDS Judge, Psnr
Top(c) == IF c.max = <<>> THEN Peak(c.La) ELSE ZMul(ZOf(c.max[1]), Unit(c.La))
Says(got, s, o, how) == IF s[1] = 0 THEN (IF got = <<>> THEN {} ELSE {ToString(<<how, "infinite, not", got>>)})
                        ELSE IF got = <<>> THEN {ToString(<<how, "infinite">>)}
                        ELSE IF IsRatio(got[1], o, 20) THEN {} ELSE {ToString(<<how, got[1]>>)}
Ratio(c, i) ==
  LET x == Samples(c.La, c.a, i)
      s == Squares(x, Samples(c.Lb, c.b, i), 1, Len(x))
      o == IF s[1] = 0 THEN 0 ELSE Octaves(Top(c), s, Len(x))
  IN Says(c.got[i], s, o, "ratio") \union Says(c.back[i], s, o, "other way")
Each(c) == IF Len(c.got) # Views(c.La) \/ Len(c.back) # Views(c.La) THEN {"number of values"} ELSE UNION { Ratio(c, i) : i \in 1..Len(c.got) }
(* what the two are refused for, and how *)
Why(c) == LET a == c.fa
              b == c.fb
          IN IF a[1] # b[1] \/ a[1] \notin {"video", "audio"} THEN {"AttributeError"}
             ELSE (IF a[4] # b[4] \/ a[3] # b[3] THEN {"AttributeError"} ELSE {})
                  \union (IF a[5] \/ b[5] \/ (a[1] = "audio" /\ a[2] # b[2]) THEN {"NotImplementedError"} ELSE {})
CaseVerdict(c) ==
  CASE c.kind = "ratio" -> Each(c) \union (IF c.still THEN {} ELSE {"changed a grain"})
    [] c.kind = "refused" -> IF c.res \in Why(c) \/ (c.res = "ok" /\ Why(c) = {}) THEN {} ELSE {"result " \o c.res}
    [] OTHER -> {c.kind}
=============================================================================
