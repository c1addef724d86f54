----------------------------- MODULE GrainMeta ------------------------------
(* Grain attributes and the metadata dictionary: two views of one state A, a function from attribute to value.   *)
(* Value: <<kind, payload>>: ids <<"id", 16 bytes>>, times <<"ts", <<sign, digits of s, digits of ns>>>>,         *)
(*   "rat" <<num, den>>, "int" <<sign, limbs..>>, "bool" <<0/1>>, "text" bytes, "enum:X" like int, "none",          *)
(*   "ints" sequence, "json" text.  Leaf of the metadata: <<path, value>>.                                       *)
EXTENDS Integers, Sequences, TLC
Num(n) == IF n = 0 THEN <<"int", <<1>>>> ELSE <<"int", <<1, n % 256>> \o (IF n < 256 THEN <<>> ELSE <<n \div 256>>)>>
Rat(a, b) == <<"rat", <<Num(a)[2], Num(b)[2]>>>>
None == <<"none", <<>>>>
NoText == <<"text", <<>>>>
NoId == <<"id", [i \in 1..16 |-> 0]>>
Common == {"source_id", "flow_id", "origin_timestamp", "sync_timestamp", "creation_timestamp", "rate", "duration"}
Own(t) == CASE t = "video" -> {"cog_frame_format", "cog_frame_layout", "width", "height", "extension", "source_aspect_ratio", "pixel_aspect_ratio"}
            [] t = "coded_video" -> {"cog_frame_format", "cog_frame_layout", "origin_width", "origin_height", "coded_width", "coded_height",
                                     "is_key_frame", "temporal_offset", "source_aspect_ratio", "pixel_aspect_ratio", "unit_offsets"}
            [] t = "audio" -> {"cog_audio_format", "samples", "channels", "sample_rate"}
            [] t = "coded_audio" -> {"cog_audio_format", "samples", "channels", "sample_rate", "priming", "remainder"}
            [] t = "event" -> {"event_type", "topic", "event_data"}
            [] OTHER -> {}
Attrs(t) == Common \union Own(t)
(* other names of an attribute *)
Base(a) == CASE a = "src_id" -> {"source_id"}
             [] a = "format" -> {"cog_frame_format", "cog_audio_format"}
             [] a = "layout" -> {"cog_frame_layout"}
             [] OTHER -> {a}
BaseOf(t, a) == CHOOSE x \in Base(a) : x \in Attrs(t)
(* where it is kept *)
Section(t) == CASE t = "video" -> "cog_frame" [] t = "coded_video" -> "cog_coded_frame" [] t = "audio" -> "cog_audio"
                [] t = "coded_audio" -> "cog_coded_audio" [] t = "event" -> "event_payload" [] OTHER -> ""
Key(a) == CASE a \in {"cog_frame_format", "cog_audio_format"} -> "format"
            [] a = "cog_frame_layout" -> "layout"
            [] a = "event_type" -> "type"
            [] a = "event_data" -> "data"
            [] OTHER -> a
Path(t, a) == IF a \in Common THEN "grain/" \o a ELSE "grain/" \o Section(t) \o "/" \o Key(a)
Enums == {"enum:CogFrameFormat", "enum:CogFrameLayout", "enum:CogAudioFormat"}
Digits == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102>>
RECURSIVE Hex(_, _)
Hex(b, i) == IF i > 16 THEN <<>>
             ELSE (IF i \in {5, 7, 9, 11} THEN <<45>> ELSE <<>>) \o <<Digits[(b[i] \div 16) + 1], Digits[(b[i] % 16) + 1]>> \o Hex(b, i + 1)
TimeText(v) == (IF v[1] < 0 THEN <<45>> ELSE <<>>) \o v[2] \o <<58>> \o v[3]
(* the leaves an attribute is kept as *)
Leaves(t, a, v) ==
  LET p == Path(t, a) IN
  CASE v[1] = "id" -> {<<p, <<"text", Hex(v[2], 1)>>>>}
    [] v[1] = "ts" -> {<<p, <<"text", TimeText(v[2])>>>>}
    [] v[1] = "rat" -> {<<p \o "/numerator", <<"int", v[2][1]>>>>, <<p \o "/denominator", <<"int", v[2][2]>>>>}
    [] v[1] \in Enums -> {<<p, <<"int", v[2]>>>>}
    [] v[1] = "none" -> {}
    [] v[1] = "ints" -> { <<p \o "/" \o ToString(i - 1), <<"int", v[2][i]>>>> : i \in DOMAIN v[2] }
    [] OTHER -> {<<p, v>>}
Meta(t, A) == UNION { Leaves(t, a, A[a]) : a \in Attrs(t) }
(* what a missing parameter, or missing metadata, stands for *)
Unknown == <<"enum:CogFrameFormat", <<1, 254, 255, 255, 255>>>>
UnknownLayout == <<"enum:CogFrameLayout", <<1, 254, 255, 255, 255>>>>
Invalid == <<"enum:CogAudioFormat", <<1, 255, 255, 255, 255>>>>
FromParams(t, a) ==
  CASE a = "rate" -> IF t = "empty" THEN Rat(0, 1) ELSE Rat(25, 1)
    [] a = "duration" -> IF t = "empty" THEN Rat(0, 1) ELSE Rat(1, 25)
    [] a = "cog_frame_format" -> Unknown
    [] a = "cog_frame_layout" -> UnknownLayout
    [] a = "cog_audio_format" -> Invalid
    [] a \in {"width", "origin_width", "coded_width"} -> Num(1920)
    [] a \in {"height", "origin_height", "coded_height"} -> Num(1080)
    [] a = "sample_rate" -> Num(48000)
    [] a \in {"extension", "samples", "channels", "priming", "remainder"} -> Num(0)
    [] a \in {"event_type", "topic"} -> NoText
    [] a = "event_data" -> <<"json", <<91, 93>>>>
    [] a = "unit_offsets" -> <<"ints", <<>>>>
    [] OTHER -> None
FromMeta(t, a) ==
  CASE a \in {"rate", "duration"} -> Rat(0, 1)
    [] a \in {"width", "origin_width", "coded_width", "height", "origin_height", "coded_height"} -> Num(0)
    [] a = "sample_rate" /\ t = "audio" -> Num(0)
    [] a \in {"source_id", "flow_id"} -> NoId
    [] OTHER -> FromParams(t, a)
(* built from the given attributes; now: the time of creation where none is given *)
Built(t, how, given, now) ==
  LET has(a) == a \in DOMAIN given
      made == IF has("creation_timestamp") THEN given["creation_timestamp"] ELSE now
      from == IF has("origin_timestamp") THEN given["origin_timestamp"] ELSE made
      V(a) == CASE has(a) -> given[a]
                [] a = "creation_timestamp" -> made
                [] a = "origin_timestamp" -> from
                [] a = "sync_timestamp" -> from
                [] how = "params" /\ a = "coded_width" /\ has("origin_width") -> given["origin_width"]
                [] how = "params" /\ a = "coded_height" /\ has("origin_height") -> given["origin_height"]
                [] how = "params" -> FromParams(t, a)
                [] OTHER -> FromMeta(t, a)
  IN [a \in Attrs(t) |-> V(a)]
Assign(t, A, a, v) == [A EXCEPT ![BaseOf(t, a)] = v]
=============================================================================
