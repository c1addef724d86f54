------------------------------- MODULE J_H264 -------------------------------
(* kind parse: calls of one parser, each bytes and what came of it: res "more", "refused" or "found" with size, units,    *)
(* info (<<>> or <<record>>)                                                                                             *)
(* kind wrap: see H264Wrap                                                                                               *)
EXTENDS Judge, H264Wrap
Small(r) == <<ZOf(r[1]), ZOf(r[2])>>
Opt(o, w) == IF o = <<>> \/ w = <<>> THEN o = w ELSE SameRatio(o[1], w[1])
InfoBad(o, w) ==
  IF o = <<>> \/ w = <<>> THEN (IF o = w THEN {} ELSE {"frame info"})
  ELSE LET x == o[1]
           y == w[1]
       IN { f \in {"profile", "flags", "level", "depth", "cw", "ch", "w", "h", "fixed", "key"} : x[f] # y[f] }
          \union (IF Opt(x.sar, IF y.sar = <<>> THEN <<>> ELSE <<Small(y.sar[1])>>) THEN {} ELSE {"sample aspect ratio"})
          \union (IF Opt(x.rate, y.rate) THEN {} ELSE {"frame rate"})
RECURSIVE Calls(_, _, _)
Calls(c, j, S) ==
  IF j > Len(c.calls) THEN {}
  ELSE LET o == c.calls[j]
           w == H!Found(o.bytes, S)
           why == "call " \o ToString(j) \o " "
       IN IF o.res # w.res THEN {why \o o.res \o " instead of " \o w.res}
          ELSE IF w.res = "refused" THEN {}
          ELSE IF w.res = "more" THEN Calls(c, j + 1, w.S)
          ELSE (IF o.size = w.size THEN {} ELSE {why \o "size"}) \union (IF o.units = w.units THEN {} ELSE {why \o "unit offsets"})
               \union { why \o x : x \in InfoBad(o.info, w.info) } \union Calls(c, j + 1, w.S)
(* kind whole: bytes, units, res "found" with info, or "refused": the bytes as one picture *)
Whole(c) ==
  LET f == H!Found(c.bytes, H!NoSets)
      w == H!LastOne(c.bytes, H!NoSets)
      res == IF w.res = "nothing" THEN "refused" ELSE w.res
  IN (IF c.units = H!Starts(c.bytes) THEN {} ELSE {"unit offsets"})
     \union (IF f.res = "found" THEN {}                                            \* no single picture
             ELSE IF c.res # res THEN {c.res \o " instead of " \o res}
             ELSE IF res = "refused" THEN {} ELSE InfoBad(c.info, w.info))
CaseVerdict(c) == CASE c.kind = "failed" -> {c.res}
                    [] c.kind = "parse" -> Calls(c, 1, H!NoSets)
                    [] c.kind = "whole" -> Whole(c)
                    [] OTHER -> Wrapped(c)
=============================================================================
