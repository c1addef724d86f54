---------------------------- MODULE GrainCompare ----------------------------
(* When two grains match, which of their attributes fail to, and what options change about it.                     *)
(* A grain is [t, at]: its type and a function from the names of its attributes to values                          *)
(*   <<"is", x>> anything,  <<"int", z>> a whole number,  <<"time", z>> nanoseconds,  <<"list", <<item, ..>>>>,      *)
(*   <<"none">>,  <<"data", bytes>>;  an item of a list is a set of pairs, given as a sequence, or a number.         *)
(* An option is [o, name, e]: "exclude", "include", or "expect" with the condition e on the difference a - b.       *)
EXTENDS Integers, Sequences, FiniteSets, Big

Common == {"grain_type", "src_id", "flow_id", "rate", "duration", "length", "origin_timestamp", "sync_timestamp", "creation_timestamp", "timelabels"}
Own(t) == CASE t = "video" -> {"cog_frame_format", "width", "height", "cog_frame_layout"}
            [] t = "coded_video" -> {"cog_frame_format", "coded_width", "coded_height", "origin_width", "origin_height", "is_key_frame", "temporal_offset",
                                     "cog_frame_layout", "unit_offsets"}
            [] t = "audio" -> {"cog_audio_format", "samples", "channels", "sample_rate"}
            [] t = "coded_audio" -> {"cog_audio_format", "samples", "channels", "sample_rate", "priming", "remainder"}
            [] t = "event" -> {"event_type", "topic", "event_data"}
            [] OTHER -> {}
Format(t) == IF t \in {"video", "coded_video"} THEN {"cog_frame_format"} ELSE IF t \in {"audio", "coded_audio"} THEN {"cog_audio_format"} ELSE {}
Names(a, b) == Common \union (IF a.t # b.t THEN {"data"} ELSE Own(a.t) \union (IF a.t = "event" THEN {} ELSE {"data"}))

Alias(n) == CASE n = "src_id" -> {n, "source_id"} [] n \in {"cog_frame_format", "cog_audio_format"} -> {n, "format"}
              [] n = "cog_frame_layout" -> {n, "layout"} [] OTHER -> {n}
Given(O, o) == { O[i].name : i \in { i \in DOMAIN O : O[i].o = o } }
(* data of different kinds is not comparable, and is left out *)
Incomparable(a, b) == a.t # b.t \/ \E n \in Format(a.t) : a.at[n] # b.at[n]
Excluded(a, b, O, n) ==
  \/ Alias(n) \cap Given(O, "exclude") # {}
  \/ n = "creation_timestamp" /\ n \notin Given(O, "include")
  \/ n = "data" /\ Incomparable(a, b)
  \/ n = "length" /\ a.t = "event" /\ b.t = "event" /\ {"event_type", "topic", "event_data"} \cap Given(O, "exclude") # {}

RECURSIVE Holds(_, _)
Holds(e, d) == CASE e[1] = "and" -> Holds(e[2], d) /\ Holds(e[3], d)
                 [] e[1] = "or" -> Holds(e[2], d) \/ Holds(e[3], d)
                 [] e[1] = "==" -> ZCmp(d, e[2]) = 0 [] e[1] = "!=" -> ZCmp(d, e[2]) # 0
                 [] e[1] = "<" -> ZCmp(d, e[2]) < 0 [] e[1] = "<=" -> ZCmp(d, e[2]) <= 0
                 [] e[1] = ">" -> ZCmp(d, e[2]) > 0 [] OTHER -> ZCmp(d, e[2]) >= 0
Wanted(O, n) == { O[i].e : i \in { i \in DOMAIN O : O[i].o = "expect" /\ O[i].name = n } }
Items(v) == [ i \in DOMAIN v |-> { v[i][j] : j \in DOMAIN v[i] } ]
ItemDiffers(v, w, i) == i > Len(v) \/ i > Len(w) \/ { v[i][j] : j \in DOMAIN v[i] } # { w[i][j] : j \in DOMAIN w[i] }
Same(v, w, wanted) ==
  CASE v[1] = "time" \/ (v[1] = "int" /\ w[1] = "int") -> IF wanted = {} THEN v[2] = w[2] ELSE \A e \in wanted : Holds(e, ZSub(v[2], w[2]))
    [] v[1] = "list" /\ w[1] = "list" -> Items(v[2]) = Items(w[2])
    [] OTHER -> v = w
Equal(a, b, O, n) ==
  IF n = "data" THEN IF Incomparable(a, b) THEN FALSE
                     ELSE IF a.at[n] = <<"none">> \/ b.at[n] = <<"none">> THEN a.at[n] = b.at[n]
                     ELSE ~Excluded(a, b, O, n) /\ a.at[n] = b.at[n]
  ELSE Same(a.at[n], b.at[n], Wanted(O, n))
Failing(a, b, O) == { n \in Names(a, b) : ~Equal(a, b, O, n) }
Matches(a, b, O) == \A n \in Failing(a, b, O) : Excluded(a, b, O, n)
(* the places of a list at which an entry differs or is on one side only *)
BadItems(v, w) == { i \in 1..(IF Len(v) > Len(w) THEN Len(v) ELSE Len(w)) : ItemDiffers(v, w, i) }
FirstDifference(x, y) == CHOOSE i \in 1..(Len(x) + 1) : (\A j \in 1..(i - 1) : j <= Len(y) /\ x[j] = y[j]) /\ ~(i <= Len(x) /\ i <= Len(y) /\ x[i] = y[i])

(* Peak signal to noise ratio: 10 log10 (max^2 / mean square error), infinite for equal samples.  Its place among   *)
(* whole multiples of ten decibels needs no logarithm: ratio > 10 k  iff  max^2 n > 10^k sum of squares.             *)
RECURSIVE SquareSum(_, _, _)
SquareSum(x, y, i) == IF i > Len(x) THEN ZOf(0) ELSE LET d == ZSub(x[i], y[i]) IN ZAdd(ZMul(d, d), SquareSum(x, y, i + 1))
Against(max, x, y, k) == LET s == SquareSum(x, y, 1)               \* sign of ratio - 10 k
                         IN IF s = ZOf(0) THEN 1 ELSE ZCmp(ZMul(ZMul(max, max), ZOf(Len(x))), ZMul(s, Z(1, NPow(NOf(10), k))))
=============================================================================
