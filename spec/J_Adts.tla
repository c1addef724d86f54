------------------------------- MODULE J_Adts -------------------------------
(* kind header: bytes, res: <<>> when refused, else <<length, type, rate, channels>>                                      *)
(* kind wrap: bytes, start, samples (the template's, 0 none), t (its other attributes), upto, grains: each from (where in *)
(* the input its data is), len, ts, sync, channels, srate, samples, rate, duration, attrs; end                            *)
EXTENDS Judge, AacWrap
CaseVerdict(c) ==
  CASE c.kind = "failed" -> {c.res}
    [] c.kind = "header" -> (IF c.res = (IF AacValid(c.bytes) THEN <<FrameLength(c.bytes), ObjectType(c.bytes), SampleRate(c.bytes), ChannelCount(c.bytes)>>
                                         ELSE <<>>) THEN {} ELSE {"header read as " \o ToString(c.res)})
    [] OTHER -> Wrapped(c)
=============================================================================
