------------------------------- MODULE Drawn --------------------------------
(* Grains drawn from the test-data strategies: what may be asked for, and what a grain may be where nothing was.          *)
(* A request says of each attribute <<"is", values>> (one of them was to be drawn), <<"free">> (drawn from its own domain) *)
(* or <<"unset">> (left to the grain).  Times and ratios' terms are of Big, formats and layouts are names.                 *)
EXTENDS Integers, Sequences, FiniteSets
F == INSTANCE Formats
T == INSTANCE GrainTime WITH NS <- <<1, <<2560, 2476, 59>>>>        \* 10^9
RawVideo == DOMAIN F!Video \union {"ALPHA_U8_1BIT"}
RawAudio == DOMAIN F!Audio
CodedVideo == {"MJPEG", "DNxHD", "MPEG2", "AVCI", "H264", "DV", "D10", "VC2", "VP8", "H265"}
CodedAudio == {"MP1", "AAC", "OPUS"}
Layouts == {"FULL_FRAME", "SEPARATE_FIELDS", "SINGLE_FIELD", "MIXED_FIELDS", "SEGMENTED_FRAME"}
(* <<n, d>> from 0 to 200 in lowest terms as the implementation keeps it *)
Ratio(x, most) == T!ZSgn(x[1]) >= 0 /\ T!ZSgn(x[2]) > 0 /\ T!ZCmp(x[1], T!ZMul(T!ZOf(most), x[2])) <= 0
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
(* the domain of an attribute of a type of grain when nothing is asked for *)
InDomain(type, a, x) ==
  CASE a \in {"rate", "duration"} -> Ratio(x, 200)
    [] a = "format" -> x \in (CASE type = "video" -> RawVideo [] type = "audio" -> RawAudio [] type = "coded_video" -> CodedVideo [] OTHER -> CodedAudio)
    [] a = "layout" -> x \in Layouts
    [] a \in {"samples", "channels"} -> x >= 1
    [] a = "sample_rate" -> x \in {44100, 48000}
    [] a \in {"width", "coded_width", "origin_width"} -> x = 240
    [] a \in {"height", "coded_height", "origin_height"} -> x = 135
    [] a \in {"priming", "remainder", "temporal_offset"} -> x >= 0
    [] a = "is_key_frame" -> x \in {"yes", "no"}
    [] a = "unit_offsets" -> Increasing(x) /\ \A i \in 1..Len(x) : x[i] >= 0
    [] OTHER -> TRUE                                   \* identifiers, times, an event's type, topic and data: see Shapes
(* what is left unset takes after something else, or has the default of the grain's type *)
Unset(type, a, g) ==
  CASE a = "origin_timestamp" -> g.origin_timestamp = g.creation_timestamp
    [] a = "sync_timestamp" -> g.sync_timestamp = g.origin_timestamp
    [] a = "creation_timestamp" -> g.recent
    [] a = "rate" -> g.rate = <<T!ZOf(IF type = "empty" THEN 0 ELSE 25), T!One>>
    [] a = "duration" -> g.duration = <<T!ZOf(IF type = "empty" THEN 0 ELSE 1), T!ZOf(IF type = "empty" THEN 1 ELSE 25)>>
    [] a \in {"priming", "remainder"} -> g[a] = 0
    [] OTHER -> TRUE
Asked(type, req, g) ==
  { a \in DOMAIN req : ~ CASE req[a][1] = "is" -> \E i \in 1..Len(req[a][2]) : g[a] = req[a][2][i]
                           [] req[a][1] = "free" -> InDomain(type, a, g[a])
                           [] OTHER -> Unset(type, a, g) }
(* the length its format and size give a grain's data; coded grains start without *)
RightLength(type, g) ==
  CASE type = "video" /\ g.format \in DOMAIN F!Video -> F!Describes(g.format, g.width, g.height, g.comps) /\ g.len = F!Total(g.comps)
    [] type = "audio" /\ g.format \in RawAudio -> g.len = F!AudioBytes(F!Audio[g.format], g.channels, g.samples)
    [] type \in {"coded_video", "coded_audio"} -> g.len = 0
    [] OTHER -> TRUE
=============================================================================
