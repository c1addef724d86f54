------------------------------ MODULE WrapTime ------------------------------
(* The times given to wrapped grains: the grain rate's own grid, from the first point not before the start.            *)
EXTENDS GrainTime
FirstFrom(start, rate) ==
  LET k == ZFloor(ZMul(start, rate[1]), ZMul(rate[2], NS))
      cand == { ZAdd(k, ZOf(d)) : d \in {-1, 0, 1} }
  IN CHOOSE c \in cand : ZCmp(Span(c, rate), start) >= 0 /\ \A d \in cand : ZCmp(Span(d, rate), start) >= 0 => ZCmp(c, d) <= 0
(* the i-th grain (from 0) *)
OnGrid(start, rate, i) == Span(ZAdd(FirstFrom(start, rate), ZOf(i)), rate)
=============================================================================
