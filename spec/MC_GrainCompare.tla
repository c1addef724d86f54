-------------------------- MODULE MC_GrainCompare ---------------------------
(* Laws of grain comparison over every pair of small grains and every small set of options.                         *)
EXTENDS GrainCompare, TLC
CONSTANT Vary, Opts, MaxOpts
VARIABLES t, u, da, db, O, ph
Val(n, v) == CASE n \in {"origin_timestamp", "sync_timestamp", "creation_timestamp"} -> <<"time", ZOf(v)>>
               [] n \in {"length", "width", "samples", "temporal_offset"} -> <<"int", ZOf(v)>>
               [] n \in {"timelabels", "event_data", "unit_offsets"} -> <<"list", IF v = 0 THEN <<>> ELSE <<<<"x">>>>>>
               [] n = "data" -> IF v = 0 THEN <<"none">> ELSE <<"data", <<v>>>>
               [] OTHER -> <<"is", v>>
All == Common \union UNION { Own(x) : x \in {"video", "audio", "coded_video", "coded_audio", "event"} } \union {"data"}
G(ty, d) == [t |-> ty, at |-> [n \in All |-> IF n = "grain_type" THEN <<"is", ty>> ELSE IF n \in DOMAIN d THEN Val(n, d[n]) ELSE Val(n, 1)]]
A == G(t, da)
B == G(u, db)
Option(x) == CASE x = "c" -> [o |-> "include", name |-> "creation_timestamp", e |-> <<>>]
               [] x = "d" -> [o |-> "expect", name |-> "sync_timestamp", e |-> <<"and", <<">=", ZOf(0)>>, <<"!=", ZOf(1)>>>>]
               [] x = "l" -> [o |-> "expect", name |-> "length", e |-> <<"<=", ZOf(0)>>]
               [] OTHER -> [o |-> "exclude", name |-> x, e |-> <<>>]
Flip(e) == [e EXCEPT !.e = IF @ = <<>> THEN @ ELSE IF @[1] = "and" THEN <<"and", <<"<=", ZOf(0)>>, <<"!=", ZOf(-1)>>>> ELSE <<">=", ZOf(0)>>]
Types == {"video", "event", "coded_audio"}
Init == /\ t \in Types /\ u \in {t, "video"} /\ da = <<>> /\ db = <<>> /\ O = <<>> /\ ph = 0
MNext == \/ ph = 0 /\ da' \in [Vary -> 0..1] /\ ph' = 1 /\ UNCHANGED <<t, u, db, O>>
         \/ ph = 1 /\ db' \in [Vary -> 0..1] /\ ph' = 2 /\ UNCHANGED <<t, u, da, O>>
         \/ ph >= 2 /\ ph < 2 + MaxOpts /\ \E x \in Opts : O' = Append(O, Option(x)) /\ ph' = ph + 1 /\ UNCHANGED <<t, u, da, db>>
Neg == [i \in DOMAIN O |-> Flip(O[i])]
NoWish == \A i \in DOMAIN O : O[i].o # "expect"
Laws == ph < 2 \/
  /\ Matches(A, B, O) = Matches(B, A, Neg)
  /\ { n \in Failing(A, B, O) : ~Excluded(A, B, O, n) } = { n \in Failing(B, A, Neg) : ~Excluded(B, A, Neg, n) }
  /\ NoWish /\ t = u /\ da = db => Matches(A, B, O) /\ Failing(A, B, O) \subseteq {"data"}
  /\ O = <<>> => Matches(A, B, O) = (t = u /\ \A n \in Names(A, B) \ {"creation_timestamp"} : A.at[n] = B.at[n])
  /\ \A n \in Vary \cup {"format", "topic"} : Matches(A, B, O) /\ NoWish => Matches(A, B, Append(O, Option(n)))          \* leaving more out never parts them
  /\ \A n \in Given(O, "exclude") \cap Vary : Matches(A, B, O) = Matches(G(t, [da EXCEPT ![n] = 1 - @]), B, O) \/ n \in Format(t)
=============================================================================
