-------------------------------- MODULE Cli ---------------------------------
(* The command line tools: what the wrapping tools describe their grains as, given their options, and what the probe      *)
(* says of the grains of a file.  An option is <<>> (not given) or <<value>>.                                             *)
EXTENDS Gsf
F == INSTANCE Formats
T == INSTANCE GrainTime WITH NS <- <<1, <<2560, 2476, 59>>>>        \* 10^9
Or(o, default) == IF o = <<>> THEN default ELSE o[1]
Start(o) == Or(o.start, T!Zero)
(* video: a whole number of frames per second *)
VideoFormat(o) == Or(o.format, "S16_422_10BIT")
VideoSize(o) == Or(o.size, <<1920, 1080>>)
VideoRate(o) == <<T!ZOf(Or(o.rate, 25)), T!One>>
Comps(name, w, h) == [i \in 1..Len(F!Tight(name, w, h)) |-> LET c == F!Tight(name, w, h)[i] IN <<c.width, c.height, c.stride, c.offset, c.length>>]
VideoGrain(o) == LET s == VideoSize(o)
                     f == VideoFormat(o)
                 IN [type |-> "video", format |-> f, size |-> s, comps |-> Comps(f, s[1], s[2])]
VideoBytes(o) == F!Total(F!Tight(VideoFormat(o), VideoSize(o)[1], VideoSize(o)[2]))
(* audio *)
AudioFormat(o) == Or(o.format, "S16_PLANES")
AudioChannels(o) == Or(o.channels, 2)
AudioSamples(o) == Or(o.samples, 1920)
AudioRate(o) == Or(o.srate, 48000)
AudioGrain(o) == [type |-> "audio", format |-> AudioFormat(o), channels |-> AudioChannels(o), samples |-> AudioSamples(o), srate |-> AudioRate(o)]
AudioSize(o) == F!AudioBytes(F!Audio[AudioFormat(o)], AudioChannels(o), AudioSamples(o))
AudioGrainRate(o) == <<T!ZOf(AudioRate(o)), T!ZOf(AudioSamples(o))>>
----------------------------------------------------------------------------
(* the time grains of a file cover *)
RECURSIVE ZLimbs(_)
ZLimbs(s) == IF s = <<>> THEN T!Zero ELSE T!ZAdd(T!ZOf(s[1]), T!ZMul(T!ZOf(256), ZLimbs(Tail(s))))
ZTime(t) == LET n == T!ZAdd(T!ZMul(ZLimbs(t[2]), <<1, <<2560, 2476, 59>>>>), ZLimbs(t[3])) IN IF t[1] < 0 THEN T!ZSub(T!Zero, n) ELSE n
Timed(g) == [type |-> g.t, ts |-> ZTime(g.ots), rate |-> <<ZLimbs(g.rate[1]), ZLimbs(g.rate[2])>>,
             samples |-> IF g.t \in T!Audio THEN ZLimbs(g.ints[3]) ELSE T!Zero,
             srate |-> IF g.t \in T!Audio THEN ZLimbs(g.ints[Len(g.ints)]) ELSE T!Zero, toff |-> <<>>]
Least(S) == CHOOSE x \in S : \A y \in S : T!ZCmp(x, y) <= 0
Most(S) == CHOOSE x \in S : \A y \in S : T!ZCmp(x, y) >= 0
(* the least range that covers closed ones *)
Hull(Rs) == LET R == { Rs[i] : i \in { i \in 1..Len(Rs) : Rs[i] # T!Empty } }
            IN IF R = {} THEN T!Empty ELSE <<<<Least({ r[1][1] : r \in R })>>, <<Most({ r[2][1] : r \in R })>>, <<TRUE, TRUE>>>>
Of(gs, lid) == SelectSeq(gs, LAMBDA x : x.lid = lid)
Covered(gs) == Hull([i \in 1..Len(gs) |-> T!Origin(Timed(gs[i].g))])
NoLastSample(gs) == \E i \in 1..Len(gs) : T!Undefined(Timed(gs[i].g))
(* times end at 2^48 seconds *)
Edge == T!ZMul(T!ZMul(T!ZOf(16777216), T!ZOf(16777216)), <<1, <<2560, 2476, 59>>>>)
OutOfTime(gs) == \E i \in 1..Len(gs) : T!ZCmp(T!ZAbs(T!Final(Timed(gs[i].g))), Edge) >= 0
(* essence *)
RECURSIVE Essence(_)
Essence(gs) == IF gs = <<>> THEN <<>> ELSE Head(gs).g.data \o Essence(Tail(gs))
=============================================================================
