------------------------------ MODULE Formats -------------------------------
(* Uncompressed video and audio formats by name: what a sample is, where it lies in the data.                      *)
EXTENDS Integers, Sequences
Pl(ch, bits, bpv) == [kind |-> "planar", ch |-> ch, bits |-> bits, bpv |-> bpv, group |-> 0, first |-> <<0, 0, 0>>, step |-> <<1, 1, 1>>, order |-> IF ch = "RGB" THEN "RGB" ELSE "YUV"]
(* packed: group bytes per pixel (average); sample i of component c is value first[c] + i * step[c] of the line     *)
Pk(ch, bits, bpv, group, first, step, order) == [kind |-> "packed", ch |-> ch, bits |-> bits, bpv |-> bpv, group |-> group, first |-> first, step |-> step, order |-> order]
Q == <<4, 4, 4>>
Video == [
  U8_444 |-> Pl("444", 8, 1), U8_422 |-> Pl("422", 8, 1), U8_420 |-> Pl("420", 8, 1), U8_444_RGB |-> Pl("RGB", 8, 1), ALPHA_U8 |-> Pl("A", 8, 1),
  S16_444_10BIT |-> Pl("444", 10, 2), S16_422_10BIT |-> Pl("422", 10, 2), S16_420_10BIT |-> Pl("420", 10, 2), S16_444_10BIT_RGB |-> Pl("RGB", 10, 2),
  ALPHA_S16_10BIT |-> Pl("A", 10, 2), S16_444_12BIT |-> Pl("444", 12, 2), S16_422_12BIT |-> Pl("422", 12, 2), S16_420_12BIT |-> Pl("420", 12, 2),
  S16_444_12BIT_RGB |-> Pl("RGB", 12, 2), ALPHA_S16_12BIT |-> Pl("A", 12, 2), S16_444 |-> Pl("444", 16, 2), S16_422 |-> Pl("422", 16, 2),
  S16_420 |-> Pl("420", 16, 2), S16_444_RGB |-> Pl("RGB", 16, 2), ALPHA_S16 |-> Pl("A", 16, 2), S32_444 |-> Pl("444", 32, 4), S32_422 |-> Pl("422", 32, 4),
  S32_420 |-> Pl("420", 32, 4), S32_444_RGB |-> Pl("RGB", 32, 4), ALPHA_S32 |-> Pl("A", 32, 4),
  YUYV |-> Pk("422", 8, 1, 2, <<0, 1, 3>>, <<2, 4, 4>>, "YUV"), UYVY |-> Pk("422", 8, 1, 2, <<1, 0, 2>>, <<2, 4, 4>>, "YUV"),
  v216 |-> Pk("422", 16, 2, 4, <<1, 0, 2>>, <<2, 4, 4>>, "YUV"), AYUV |-> Pk("444", 8, 1, 4, <<1, 2, 3>>, Q, "YUV"),
  RGB |-> Pk("RGB", 8, 1, 3, <<0, 1, 2>>, <<3, 3, 3>>, "RGB"), RGBx |-> Pk("RGB", 8, 1, 4, <<0, 1, 2>>, Q, "RGB"), RGBA |-> Pk("RGB", 8, 1, 4, <<0, 1, 2>>, Q, "RGB"),
  BGRx |-> Pk("RGB", 8, 1, 4, <<0, 1, 2>>, Q, "BGR"), BGRA |-> Pk("RGB", 8, 1, 4, <<0, 1, 2>>, Q, "BGR"), xRGB |-> Pk("RGB", 8, 1, 4, <<1, 2, 3>>, Q, "RGB"),
  ARGB |-> Pk("RGB", 8, 1, 4, <<1, 2, 3>>, Q, "RGB"), xBGR |-> Pk("RGB", 8, 1, 4, <<1, 2, 3>>, Q, "BGR"), ABGR |-> Pk("RGB", 8, 1, 4, <<1, 2, 3>>, Q, "BGR"),
  v210 |-> Pk("422", 10, 4, 0, <<0, 0, 0>>, <<0, 0, 0>>, "X")]
HS(F) == IF F.ch \in {"422", "420"} THEN 1 ELSE 0
VS(F) == IF F.ch = "420" THEN 1 ELSE 0
Half(n, s) == IF s = 1 THEN n \div 2 ELSE n
(* samples of component i across and down *)
CW(F, w, i) == IF i = 1 THEN w ELSE Half(w, HS(F))
CH(F, h, i) == IF i = 1 THEN h ELSE Half(h, VS(F))
Max(a, b) == IF a > b THEN a ELSE b
(* v210 packs 6 pixels into 16 bytes; lines are padded to whole blocks of 48 pixels *)
LineBytes(name, F, w) == IF name = "v210" THEN 128 * ((w + 47) \div 48) ELSE w * F.group
(* the components describing a picture, each [width, height, stride, offset, length] *)
RECURSIVE Tiles(_, _)
Tiles(cs, at) == cs = <<>> \/ (Head(cs).offset = at /\ Tiles(Tail(cs), at + Head(cs).length))
RECURSIVE Total(_)
Total(cs) == IF cs = <<>> THEN 0 ELSE Head(cs).length + Total(Tail(cs))
DescribesPlanar(F, w, h, cs) ==
  /\ Len(cs) = 3 \/ (F.ch = "A" /\ Len(cs) = 1)
  /\ \A i \in 1..Len(cs) : LET c == cs[i] IN
       /\ c.width = CW(F, w, i) /\ c.height = CH(F, h, i) /\ c.stride = c.width * F.bpv
       (* an odd picture may leave part of a line or column's bytes over *)
       /\ c.length \in {c.stride * c.height, ((w * h) \div ((HS(F) + 1) * (VS(F) + 1))) * F.bpv} \/ (i = 1 /\ c.length = w * h * F.bpv)
       /\ c.length >= c.stride * c.height
       /\ i = 1 => c.length = w * h * F.bpv
DescribesPacked(name, F, w, h, cs) ==
  Len(cs) = 1 /\ cs[1].width = w /\ cs[1].height = h /\ cs[1].stride = LineBytes(name, F, w) /\ cs[1].length = h * cs[1].stride
Describes(name, w, h, cs) == LET F == Video[name] IN Tiles(cs, 0) /\ (IF F.kind = "planar" THEN DescribesPlanar(F, w, h, cs) ELSE DescribesPacked(name, F, w, h, cs))
(* the address of sample (x, y) of component i (from 1), given the described components *)
Addr(F, cs, i, x, y) == IF F.kind = "planar" THEN cs[i].offset + y * cs[i].stride + x * F.bpv
                        ELSE cs[1].offset + y * cs[1].stride + (F.first[i] + x * F.step[i]) * F.bpv
(* a description with the samples packed without gaps *)
Tight(name, w, h) ==
  LET F == Video[name]
      comp(i, at) == [width |-> CW(F, w, i), height |-> CH(F, h, i), stride |-> CW(F, w, i) * F.bpv, offset |-> at, length |-> CW(F, w, i) * CH(F, h, i) * F.bpv]
      l1 == w * h * F.bpv
      l2 == CW(F, w, 2) * CH(F, h, 2) * F.bpv
  IN IF F.kind = "planar" THEN <<comp(1, 0), comp(2, l1), comp(3, l1 + l2)>>
     ELSE <<[width |-> w, height |-> h, stride |-> LineBytes(name, F, w), offset |-> 0, length |-> h * LineBytes(name, F, w)]>>
(* audio: bytes per sample in the buffer, arrangement; channels in pairs come in whole pairs *)
Au(arr, type, bytes) == [arr |-> arr, type |-> type, bytes |-> bytes]
Audio == [S16_PLANES |-> Au("planes", "int", 2), S16_PAIRS |-> Au("pairs", "int", 2), S16_INTERLEAVED |-> Au("interleaved", "int", 2),
          S24_PLANES |-> Au("planes", "int", 4), S24_PAIRS |-> Au("pairs", "int", 3), S24_INTERLEAVED |-> Au("interleaved", "int", 3),
          S32_PLANES |-> Au("planes", "int", 4), S32_PAIRS |-> Au("pairs", "int", 4), S32_INTERLEAVED |-> Au("interleaved", "int", 4),
          FLOAT_PLANES |-> Au("planes", "float", 4), FLOAT_PAIRS |-> Au("pairs", "float", 4), FLOAT_INTERLEAVED |-> Au("interleaved", "float", 4),
          DOUBLE_PLANES |-> Au("planes", "double", 8), DOUBLE_PAIRS |-> Au("pairs", "double", 8), DOUBLE_INTERLEAVED |-> Au("interleaved", "double", 8)]
Slots(A, channels) == IF A.arr = "pairs" THEN 2 * ((channels + 1) \div 2) ELSE channels
AudioBytes(A, channels, samples) == Slots(A, channels) * samples * A.bytes
(* the position (in samples) of sample n of channel c (from 0) *)
AudioAt(A, channels, samples, c, n) == CASE A.arr = "planes" -> c * samples + n
                                         [] A.arr = "interleaved" -> n * channels + c
                                         [] A.arr = "pairs" -> 2 * (c \div 2) * samples + 2 * n + (c % 2)
=============================================================================
