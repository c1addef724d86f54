------------------------------- MODULE J_Cli --------------------------------
(* kind wrap: what (video, audio, aac, h264), o (options), seekable, flow and src (as given, or <<>>), w (the rest of what  *)
(* RawWrap, AacWrap or H264Wrap judge), metas (each grain's flow, src, lid and description), segs [lid, id, count, tags]    *)
(* kind extract: bytes, ids, ok, res;  kind probe: bytes, grains, stamps (what was asked for), ok, res: <<>> or <<[head,    *)
(* segs: each lid, range, data, stamps]>>;  kind fresh: ids                                                                *)
EXTENDS Judge, Cli
R == INSTANCE RawWrap
A == INSTANCE AacWrap
H == INSTANCE H264Wrap
(* '{"type": "", "topic": "", "data": []}' : an event without data *)
NoEvent == <<123, 34, 116, 121, 112, 101, 34, 58, 32, 34, 34, 44, 32, 34, 116, 111, 112, 105, 99, 34, 58, 32, 34, 34,
             44, 32, 34, 100, 97, 116, 97, 34, 58, 32, 91, 93, 125>>
Shown(gs) == [i \in 1..Len(gs) |-> IF gs[i].g.t = "event" /\ gs[i].g.data = <<>> THEN [gs[i] EXCEPT !.g.data = NoEvent] ELSE gs[i]]
Without(gs) == [i \in 1..Len(gs) |-> [gs[i] EXCEPT !.g.data = <<>>]]
Framed(c) ==
  LET o == c.o
      none == [x \in {} |-> 0]
      w == c.w @@ [t |-> none, upto |-> 1000000, apart |-> TRUE, kept |-> TRUE, start |-> Start(o)]
  IN CASE c.what = "video" -> R!Raw(w @@ [size |-> VideoBytes(o), rate |-> VideoRate(o)])
       [] c.what = "audio" -> R!Raw(w @@ [size |-> AudioSize(o), rate |-> AudioGrainRate(o)])
       [] c.what = "aac" -> A!Wrapped(w @@ [samples |-> Or(o.samples, 0)])
       [] OTHER -> H!Wrapped(w @@ [rate |-> VideoRate(o), duration |-> <<VideoRate(o)[2], VideoRate(o)[1]>>, size |-> VideoSize(o) \o <<0, 0>>])
Described(c) ==
  LET o == c.o
  IN CASE c.what = "video" -> VideoGrain(o)
       [] c.what = "audio" -> AudioGrain(o)
       [] c.what = "aac" -> [type |-> "coded_audio", format |-> "AAC"]
       [] OTHER -> [type |-> "coded_video", format |-> VideoFormat(o)]
Rates(c, m) == CASE c.what = "video" -> H!SameRatio(m.rate, VideoRate(c.o)) /\ H!SameRatio(m.duration, <<VideoRate(c.o)[2], VideoRate(c.o)[1]>>)
                 [] c.what = "audio" -> H!SameRatio(m.rate, AudioGrainRate(c.o)) /\ H!SameRatio(m.duration, <<AudioGrainRate(c.o)[2], AudioGrainRate(c.o)[1]>>)
                 [] OTHER -> TRUE
Wrap(c) ==
  LET n == Len(c.w.grains)
      d == Described(c)
      s == c.segs[1]
      bad(i) == LET m == c.metas[i]
                    p == "grain " \o ToString(i) \o " "
                IN (IF m.flow = s.id THEN {} ELSE {p \o "flow id"})
                   \union (IF m.src = (IF c.src = <<>> THEN c.metas[1].src ELSE c.src[1]) THEN {} ELSE {p \o "source id"})
                   \union (IF m.lid = s.lid THEN {} ELSE {p \o "local id"})
                   \union (IF Rates(c, m) THEN {} ELSE {p \o "rate"})
                   \union { p \o a : a \in { a \in DOMAIN d : m[a] # d[a] } }
  IN Framed(c)
     \union (IF Len(c.segs) # 1 THEN {ToString(Len(c.segs)) \o " segments"}
             ELSE (IF c.flow = <<>> \/ s.id = c.flow[1] THEN {} ELSE {"segment id"})
                  \union (IF s.tags = <<>> THEN {} ELSE {"segment tags"})
                  \union (IF s.count = (IF c.seekable /\ c.w.end = "end" THEN n ELSE -1) THEN {} ELSE {"segment count " \o ToString(s.count)})
                  \union UNION { bad(i) : i \in 1..n })
     \union (IF c.left = <<>> THEN {} ELSE {"wrote elsewhere"})
Extract(c) ==
  LET d == Decode(c.bytes, TRUE, c.ids)
      want == Essence(Shown(d.grains))
  IN (IF c.res = want \/ (d.k = "ok" /\ d.maybe # <<>> /\ c.res = want \o Essence(Shown(d.maybe))) THEN {} ELSE {"essence"})
     \union (IF d.k = "cutlater" \/ c.ok = (d.k = "ok") THEN {} ELSE {IF c.ok THEN "read a broken file" ELSE "refused"})
SegmentBad(c, s, gs) ==
  LET g == Without(Of(gs, s.lid))
      p == "segment " \o ToString(s.lid) \o " "
      data == IF c.grains \/ g = <<>> THEN g ELSE <<g[1]>>
      stamp == [i \in 1..Len(s.stamps) |-> [ots |-> g[i].g.ots, sts |-> g[i].g.sts]]
  IN (IF s.range = (IF g = <<>> THEN <<>> ELSE <<Covered(g)>>) THEN {} ELSE {p \o "time range"})
     \union { p \o x : x \in GrainsDiff(data, [i \in 1..Len(s.data) |-> [lid |-> s.lid, g |-> s.data[i]]]) }
     \union (IF Len(s.stamps) # (IF c.stamps THEN Len(g) ELSE 0) THEN {p \o "number of timestamps"}
             ELSE IF \A i \in 1..Len(s.stamps) : TsEq(s.stamps[i].ots, g[i].g.ots) /\ TsEq(s.stamps[i].sts, g[i].g.sts) THEN {} ELSE {p \o "timestamps"})
Probe(c) ==
  LET d == Decode(c.bytes, TRUE, <<>>)
      S == { d.head.segs[i].lid : i \in 1..Len(d.head.segs) }
      whole == \A i \in 1..Len(d.grains) : d.grains[i].lid \in S
      told(gs) == UNION { SegmentBad(c, c.res[1].segs[i], gs) : i \in 1..Len(c.res[1].segs) }
  IN IF d.k = "cutlater" \/ NoLastSample(d.grains \o (IF d.k = "ok" THEN d.maybe ELSE <<>>)) THEN {}
     ELSE IF d.k # "ok" THEN (IF c.ok THEN {"read a broken file"} ELSE {}) \union (IF c.res = <<>> THEN {} ELSE {"told of a broken file"})
     ELSE IF ~whole THEN {}                                          \* not a conforming file
     ELSE IF OutOfTime(d.grains \o d.maybe) THEN {}
     ELSE IF ~c.ok \/ c.res = <<>> THEN {"refused"}
     ELSE HeadDiff(d.head, c.res[1].head)
          \union (IF d.maybe # <<>> /\ told(d.grains \o d.maybe) = {} THEN {} ELSE told(d.grains))
CaseVerdict(c) == CASE c.kind = "failed" -> {c.res}
                    [] c.kind = "wrap" -> Wrap(c)
                    [] c.kind = "extract" -> Extract(c)
                    [] c.kind = "probe" -> Probe(c)
                    [] OTHER -> IF Cardinality({ c.ids[i] : i \in 1..Len(c.ids) }) = Len(c.ids) THEN {} ELSE {"an id twice"}
=============================================================================
