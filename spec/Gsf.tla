-------------------------------- MODULE Gsf --------------------------------
(* The Grain Sequence Format, written from gsf_docs/gsf.md and ssb.md: the bytes of a file (Encode), what a   *)
(* reader must make of any byte sequence (Decode), and when two grains carry the same stored fields.          *)
(*                                                                                                           *)
(* A grain: [t, src, flow, ots, sts, rate, dur, tls, ints, sar, par, comps, key, toff, unof, data]           *)
(*   t     "empty" "video" "coded_video" "audio" "coded_audio" "event"                                       *)
(*   ots, sts   <<sign, seconds, nanoseconds>>;  rate, dur <<num, den>>;  tls: seq of [tag, cnt, num, den, drop] *)
(*   ints  the header's unsigned fields in file order; sar, par, key, toff: <<>> when absent, else <<value>>  *)
(*   comps seq of <<width, height, stride, length, offset>>;  unof seq of offsets;  data bytes               *)
EXTENDS Bytes, Calendar, FiniteSets, TLC

T_SSBB == <<83, 83, 66, 66>>
T_grsg == <<103, 114, 115, 103>>
T_head == <<104, 101, 97, 100>>
T_segm == <<115, 101, 103, 109>>
T_tag  == <<116, 97, 103, 32>>
T_flow == <<102, 108, 111, 119>>
T_grai == <<103, 114, 97, 105>>
T_gbhd == <<103, 98, 104, 100>>
T_tils == <<116, 105, 108, 115>>
T_vghd == <<118, 103, 104, 100>>
T_comp == <<99, 111, 109, 112>>
T_cghd == <<99, 103, 104, 100>>
T_unof == <<117, 110, 111, 102>>
T_aghd == <<97, 103, 104, 100>>
T_cahd == <<99, 97, 104, 100>>
T_eghd == <<101, 103, 104, 100>>
T_grdt == <<103, 114, 100, 116>>

Cat(seqs) == FlattenSeq(seqs)
Map(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]

----------------------------------------------------------------------------
(* Encoding *)

Block(tag, payload) == tag \o LE(8 + Len(payload), 4) \o payload

VarString(s) == LE(Len(s), 2) \o s
EncTag(kv) == Block(T_tag, VarString(kv[1]) \o VarString(kv[2]))
EncFlow(f) == Block(T_flow, f.src \o f.flow \o Pad(f.fmt, 64) \o LE(Len(f.data), 4) \o f.data)
MinusOne8 == [i \in 1..8 |-> 255]
EncSegm(s, count) == Block(T_segm, LE(s.lid, 2) \o s.id \o count \o Cat(Map(EncFlow, s.flow)) \o Cat(Map(EncTag, s.tags)))

EncCreated(c) == LET u == ToUtc(c.t, c.off)
                 IN LE(u[1], 2) \o <<u[2], u[3], u[4], u[5], u[6]>>

EncTs(v, ts) == (IF v = 7 THEN <<>> ELSE <<IF ts[1] >= 0 THEN 1 ELSE 0>>) \o Pad(ts[2], 6) \o Pad(ts[3], 4)
EncRat(r) == Pad(r[1], 4) \o Pad(r[2], 4)
NullRat == <<0, 0, 0, 0>> \o <<1, 0, 0, 0>>

EncLabel(l) == Pad(l.tag, 16) \o Pad(l.cnt, 4) \o Pad(l.num, 4) \o Pad(l.den, 4) \o <<IF l.drop THEN 1 ELSE 0>>
EncTils(tls) == IF tls = <<>> THEN <<>> ELSE Block(T_tils, LE(Len(tls), 2) \o Cat(Map(EncLabel, tls)))

P4(x) == Pad(x, 4)
EncComp(c) == P4(c[1]) \o P4(c[2]) \o P4(c[3]) \o P4(c[4])
EncComps(cs) == IF cs = <<>> THEN <<>> ELSE Block(T_comp, LE(Len(cs), 2) \o Cat(Map(EncComp, cs)))
EncOptRat(r) == IF r = <<>> THEN NullRat ELSE EncRat(r[1])
EncVideo(g) == Block(T_vghd, Cat(Map(P4, g.ints)) \o EncOptRat(g.sar) \o EncOptRat(g.par) \o EncComps(g.comps))

EncUnof(us) == IF us = <<>> THEN <<>> ELSE Block(T_unof, LE(Len(us), 2) \o Cat(Map(P4, us)))
NullKey == 3
NullOffset == <<255, 255, 255, 127>>
EncKey(k) == IF k = <<>> THEN <<NullKey>> ELSE <<IF k[1] THEN 1 ELSE 0>>
EncToff(o) == IF o = <<>> THEN NullOffset ELSE TwosComp(o[1][1], o[1][2], 4)
EncCodedVideo(g) == Block(T_cghd, Cat(Map(P4, g.ints)) \o EncKey(g.key) \o EncToff(g.toff) \o EncUnof(g.unof))

EncAudio(g) == Block(T_aghd, P4(g.ints[1]) \o Pad(g.ints[2], 2) \o P4(g.ints[3]) \o P4(g.ints[4]))
EncCodedAudio(g) == Block(T_cahd, P4(g.ints[1]) \o Pad(g.ints[2], 2) \o P4(g.ints[3]) \o P4(g.ints[4])
                                  \o P4(g.ints[5]) \o P4(g.ints[6]))
EncEvent == Block(T_eghd, <<0>>)

EncTypeHeader(g) == CASE g.t = "video" -> EncVideo(g)
                      [] g.t = "coded_video" -> EncCodedVideo(g)
                      [] g.t = "audio" -> EncAudio(g)
                      [] g.t = "coded_audio" -> EncCodedAudio(g)
                      [] g.t = "event" -> EncEvent
                      [] OTHER -> <<>>
Deprecated(v) == IF v = 7 THEN Zeros(16) ELSE <<>>
EncGbhd(v, g) == Block(T_gbhd, g.src \o g.flow \o Deprecated(v) \o EncTs(v, g.ots) \o EncTs(v, g.sts)
                               \o EncRat(g.rate) \o EncRat(g.dur) \o EncTils(g.tls) \o EncTypeHeader(g))
EncGrain(v, lid, g) == Block(T_grai, LE(lid, 2) \o EncGbhd(v, g) \o Block(T_grdt, g.data))

SsbHeader(v, minor) == T_SSBB \o T_grsg \o LE(v, 2) \o LE(minor, 2)
(* counts: function from segment position to its 8 octets *)
EncHead(doc, counts) == Block(T_head, doc.id \o EncCreated(doc.created)
                                      \o Cat([i \in 1..Len(doc.segs) |-> EncSegm(doc.segs[i], counts[i])])
                                      \o Cat(Map(EncTag, doc.tags)))
Terminator == T_grai \o <<0, 0, 0, 0>>

(* doc.grains: sequence of [lid, g] in file order *)
EncGrains(v, gs) == Cat([i \in 1..Len(gs) |-> EncGrain(v, gs[i].lid, gs[i].g)])
CountOf(doc, lid) == Len(SelectSeq(doc.grains, LAMBDA x: x.lid = lid))
TrueCounts(doc) == [i \in 1..Len(doc.segs) |-> LE(CountOf(doc, doc.segs[i].lid), 8)]
UnknownCounts(doc) == [i \in 1..Len(doc.segs) |-> MinusOne8]
EncodeWith(doc, counts) == SsbHeader(doc.v, doc.minor) \o EncHead(doc, counts) \o EncGrains(doc.v, doc.grains) \o Terminator
(* onepass: written in one pass to an output that cannot seek back *)
Encode(doc, onepass) == EncodeWith(doc, IF onepass THEN UnknownCounts(doc) ELSE TrueCounts(doc))

(* grains given in acceptance order, grouped by segment in segment order: what an all-at-once dump writes *)
GroupBySegment(segs, gs) == Cat([i \in 1..Len(segs) |-> SelectSeq(gs, LAMBDA x: x.lid = segs[i].lid)])

----------------------------------------------------------------------------
(* Same stored content *)

TsEq(a, b) == Trim(a[2]) = Trim(b[2]) /\ Trim(a[3]) = Trim(b[3])
              /\ (a[1] = b[1] \/ (Trim(a[2]) = <<>> /\ Trim(a[3]) = <<>>))
OptRatEq(a, b) == LET x == IF a = <<>> \/ RatNull(a[1]) THEN <<>> ELSE a
                      y == IF b = <<>> \/ RatNull(b[1]) THEN <<>> ELSE b
                  IN Len(x) = Len(y) /\ (x # <<>> => RatEq(x[1], y[1]))
LabelEq(a, b) == a.tag = b.tag /\ Trim(a.cnt) = Trim(b.cnt) /\ RatEq(<<a.num, a.den>>, <<b.num, b.den>>) /\ a.drop = b.drop
SeqEq(a, b, Eq(_, _)) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Eq(a[i], b[i])
NumEq(a, b) == Trim(a) = Trim(b)
NumsEq(a, b) == SeqEq(a, b, NumEq)
CompEq(a, b) == \A i \in 1..5 : NumEq(a[i], b[i])
ToffEq(a, b) == Len(a) = Len(b) /\ (a # <<>> => a[1][1] = b[1][1] /\ NumEq(a[1][2], b[1][2]))

(* names of the stored fields in which b (observed) differs from a (specified) *)
GrainDiff(a, b) ==
  { f \in {"type", "src_id", "flow_id", "origin_timestamp", "sync_timestamp", "rate", "duration", "timelabels",
           "header", "source_aspect_ratio", "pixel_aspect_ratio", "components", "key_frame", "temporal_offset",
           "unit_offsets", "data"} :
    ~ CASE f = "type" -> a.t = b.t
        [] f = "src_id" -> a.src = b.src
        [] f = "flow_id" -> a.flow = b.flow
        [] f = "origin_timestamp" -> TsEq(a.ots, b.ots)
        [] f = "sync_timestamp" -> TsEq(a.sts, b.sts)
        [] f = "rate" -> RatEq(a.rate, b.rate)
        [] f = "duration" -> RatEq(a.dur, b.dur)
        [] f = "timelabels" -> SeqEq(a.tls, b.tls, LabelEq)
        [] f = "header" -> NumsEq(a.ints, b.ints)
        [] f = "source_aspect_ratio" -> OptRatEq(a.sar, b.sar)
        [] f = "pixel_aspect_ratio" -> OptRatEq(a.par, b.par)
        [] f = "components" -> SeqEq(a.comps, b.comps, CompEq)
        [] f = "key_frame" -> a.key = b.key
        [] f = "temporal_offset" -> ToffEq(a.toff, b.toff)
        [] f = "unit_offsets" -> NumsEq(a.unof, b.unof)
        [] f = "data" -> a.data = b.data }

(* sequence of [lid, g] against an observed one *)
GrainsDiff(a, b) ==
  IF Len(a) # Len(b) THEN {ToString(<<"grain-count", Len(a), Len(b)>>)}
  ELSE UNION { (IF a[i].lid # b[i].lid THEN {ToString(<<"grain", i, "local_id">>)} ELSE {})
               \union { ToString(<<"grain", i, f>>) : f \in GrainDiff(a[i].g, b[i].g) } : i \in 1..Len(a) }

(* heads: [id, created, segs: seq of [lid, id, count, tags, flow], tags]; created is <<>> for a null date *)
SegEq(a, b) == a.lid = b.lid /\ a.id = b.id /\ a.count[1] = b.count[1] /\ NumEq(a.count[2], b.count[2])
               /\ a.tags = b.tags /\ a.flow = b.flow
HeadDiff(a, b) ==
  { f \in {"file-id", "created", "tags", "segments"} :
    ~ CASE f = "file-id" -> a.id = b.id
        [] f = "created" -> a.created = b.created
        [] f = "tags" -> a.tags = b.tags
        [] f = "segments" -> SeqEq(a.segs, b.segs, SegEq) }
Head8(c) == FromTwos(c)

----------------------------------------------------------------------------
(* Decoding: what a reader must make of a byte sequence.                                                     *)
(*   k: "ok"       - head, grains, maybe (0 or 1 further grain that is cut off only after its data)          *)
(*      "filetype" - not a GSF file; "version" - unsupported; "bad" - malformed, off = offset (-1: any)      *)
(*      "cut"      - the input ends inside the (first) file header: any error                                *)
(*   grains of a "bad" result are the ones before the malformed part                                          *)

Num(bs, p, w) == Trim(SubSeq(bs, p, p + w - 1))
IntAt(bs, p, w) == ToInt(SubSeq(bs, p, p + w - 1))
Bad(off) == [ok |-> FALSE, off |-> off]
Good(v) == [ok |-> TRUE, v |-> v]
RatAt(bs, p) == <<Num(bs, p, 4), Num(bs, p + 4, 4)>>

(* the blocks filling bs[p .. e-1] : sequence of [tag, p (start), b (start of payload), e (end, exclusive)]   *)
RECURSIVE Blocks(_, _, _)
Blocks(bs, p, e) ==
  IF p = e THEN Good(<<>>)
  ELSE IF e - p < 8 THEN Bad(p - 1)                            \* partial block
  ELSE LET tag == SubSeq(bs, p, p + 3)
           size == IntAt(bs, p + 4, 4)
           act == IF size < 8 THEN 8 ELSE size
       IN IF ~Utf8(UpToNul(tag)) THEN Bad(p - 1)
          ELSE IF act > e - p THEN Bad(-1)                     \* parent too small
          ELSE LET rest == Blocks(bs, p + act, e)
               IN IF rest.ok THEN Good(<<[tag |-> tag, p |-> p, b |-> p + 8, e |-> p + act]>> \o rest.v) ELSE rest

(* fold over results: first failure wins *)
RECURSIVE FirstBad(_, _)
FirstBad(rs, i) == IF i > Len(rs) THEN Good(<<>>) ELSE IF ~rs[i].ok THEN rs[i] ELSE FirstBad(rs, i + 1)
All(rs) == LET f == FirstBad(rs, 1) IN IF f.ok THEN Good([i \in 1..Len(rs) |-> rs[i].v]) ELSE f

Text(bs, p, n, blk) == LET s == UpToNul(SubSeq(bs, p, p + n - 1)) IN IF Utf8(s) THEN Good(s) ELSE Bad(blk.p - 1)

DecTag(bs, k) ==
  IF k.e - k.b < 2 THEN Bad(-1)
  ELSE LET n == IntAt(bs, k.b, 2) IN
       IF k.e - k.b < 4 + n THEN Bad(-1)
       ELSE LET m == IntAt(bs, k.b + 2 + n, 2) IN
            IF k.e - k.b < 4 + n + m THEN Bad(-1)
            ELSE All(<<Text(bs, k.b + 2, n, k), Text(bs, k.b + 4 + n, m, k)>>)
DecFlow(bs, k) ==
  IF k.e - k.b < 100 THEN Bad(-1)
  ELSE LET n == IntAt(bs, k.b + 96, 4) fmt == Text(bs, k.b + 32, 64, k) IN
       IF n = Huge \/ k.e - k.b < 100 + n THEN Bad(-1)
       ELSE IF ~fmt.ok THEN fmt
       ELSE LET d == SubSeq(bs, k.b + 100, k.b + 99 + n) IN
            IF ~Utf8(d) THEN Bad(-1)
            ELSE Good([src |-> SubSeq(bs, k.b, k.b + 15), flow |-> SubSeq(bs, k.b + 16, k.b + 31), fmt |-> fmt.v, data |-> d])
OnlyTag(ks, t) == SelectSeq(ks, LAMBDA k: k.tag = t)
LastOf(s) == IF s = <<>> THEN <<>> ELSE <<s[Len(s)]>>
DecSegm(bs, k) ==
  IF k.e - k.b < 26 THEN Bad(-1)
  ELSE LET ks == Blocks(bs, k.b + 26, k.e) IN
       IF ~ks.ok THEN ks
       ELSE LET tags == All([i \in 1..Len(OnlyTag(ks.v, T_tag)) |-> DecTag(bs, OnlyTag(ks.v, T_tag)[i])])
                flows == All([i \in 1..Len(OnlyTag(ks.v, T_flow)) |-> DecFlow(bs, OnlyTag(ks.v, T_flow)[i])])
            IN IF ~tags.ok THEN tags ELSE IF ~flows.ok THEN flows
               ELSE Good([lid |-> IntAt(bs, k.b, 2), id |-> SubSeq(bs, k.b + 2, k.b + 17),
                          count |-> FromTwos(SubSeq(bs, k.b + 18, k.b + 25)), tags |-> tags.v, flow |-> LastOf(flows.v)])
DecHead(bs, k) ==
  IF k.e - k.b < 23 THEN Bad(-1)
  ELSE LET ks == Blocks(bs, k.b + 23, k.e)
           c == SubSeq(bs, k.b + 16, k.b + 22)
           created == <<IF c[2] >= 128 THEN -1 ELSE c[1] + 256 * c[2], c[3], c[4], c[5], c[6], c[7]>>
       IN IF c # Zeros(7) /\ ~ValidDate(created) THEN Bad(-1)
          ELSE IF ~ks.ok THEN ks
          ELSE LET segs == All([i \in 1..Len(OnlyTag(ks.v, T_segm)) |-> DecSegm(bs, OnlyTag(ks.v, T_segm)[i])])
                   tags == All([i \in 1..Len(OnlyTag(ks.v, T_tag)) |-> DecTag(bs, OnlyTag(ks.v, T_tag)[i])])
               IN IF ~segs.ok THEN segs ELSE IF ~tags.ok THEN tags
                  ELSE Good([id |-> SubSeq(bs, k.b, k.b + 15),
                             created |-> IF c = Zeros(7) THEN <<>> ELSE created, segs |-> segs.v, tags |-> tags.v])

DecTs(v, bs, p) == IF v = 7 THEN <<1, Num(bs, p, 6), Num(bs, p + 6, 4)>>
                   ELSE <<IF bs[p] # 0 THEN 1 ELSE -1, Num(bs, p + 1, 6), Num(bs, p + 7, 4)>>
TsLen(v) == IF v = 7 THEN 10 ELSE 11
OptRatAt(bs, p) == LET r == RatAt(bs, p) IN IF RatNull(r) THEN <<>> ELSE <<r>>

DecLabel(bs, k, p) ==
  LET s == Text(bs, p, 16, k) IN
  IF ~s.ok THEN s ELSE Good([tag |-> s.v, cnt |-> Num(bs, p + 16, 4), num |-> Num(bs, p + 20, 4), den |-> Num(bs, p + 24, 4),
                             drop |-> bs[p + 28] # 0])
DecTils(bs, k) ==
  IF k.e - k.b < 2 THEN Bad(-1)
  ELSE LET n == IntAt(bs, k.b, 2) IN
       IF k.e - k.b < 2 + 29 * n THEN Bad(-1)
       ELSE All([i \in 1..n |-> DecLabel(bs, k, k.b + 2 + 29 * (i - 1))])

RECURSIVE WithOffsets(_, _, _)
WithOffsets(cs, i, off) == IF i > Len(cs) THEN <<>>
                           ELSE <<Append(cs[i], off)>> \o WithOffsets(cs, i + 1, LAdd(off, cs[i][4]))
DecComp(bs, k) ==
  IF k.e - k.b < 2 THEN Bad(-1)
  ELSE LET n == IntAt(bs, k.b, 2) IN
       IF k.e - k.b < 2 + 16 * n THEN Bad(-1)
       ELSE Good(WithOffsets([i \in 1..n |-> [j \in 1..4 |-> Num(bs, k.b + 2 + 16 * (i - 1) + 4 * (j - 1), 4)]], 1, <<>>))
DecUnof(bs, k) ==
  IF k.e - k.b < 2 THEN Bad(-1)
  ELSE LET n == IntAt(bs, k.b, 2) IN
       IF k.e - k.b < 2 + 4 * n THEN Bad(-1)
       ELSE Good([i \in 1..n |-> Num(bs, k.b + 2 + 4 * (i - 1), 4)])
LastRes(rs, dflt) == IF rs = <<>> THEN Good(dflt) ELSE rs[Len(rs)]

(* the fields a type header contributes *)
NoHeader == [t |-> "empty", ints |-> <<>>, sar |-> <<>>, par |-> <<>>, comps |-> <<>>, key |-> <<>>, toff |-> <<>>, unof |-> <<>>]
DecVghd(v, bs, k) ==
  IF k.e - k.b < 36 THEN Bad(-1)
  ELSE LET ks == Blocks(bs, k.b + 36, k.e) IN
       IF ~ks.ok THEN ks
       ELSE LET cs == All([i \in 1..Len(OnlyTag(ks.v, T_comp)) |-> DecComp(bs, OnlyTag(ks.v, T_comp)[i])]) IN
            IF ~cs.ok THEN cs
            ELSE Good([NoHeader EXCEPT !.t = "video", !.ints = [i \in 1..5 |-> Num(bs, k.b + 4 * (i - 1), 4)],
                                       !.sar = OptRatAt(bs, k.b + 20), !.par = OptRatAt(bs, k.b + 28),
                                       !.comps = IF cs.v = <<>> THEN <<>> ELSE cs.v[Len(cs.v)]])
DecCghd(v, bs, k) ==
  IF k.e - k.b < 29 THEN Bad(-1)
  ELSE LET ks == Blocks(bs, k.b + 29, k.e) IN
       IF ~ks.ok THEN ks
       ELSE LET us == All([i \in 1..Len(OnlyTag(ks.v, T_unof)) |-> DecUnof(bs, OnlyTag(ks.v, T_unof)[i])])
                kb == bs[k.b + 24]
                ob == SubSeq(bs, k.b + 25, k.b + 28)
            IN IF ~us.ok THEN us
               ELSE Good([NoHeader EXCEPT !.t = "coded_video", !.ints = [i \in 1..6 |-> Num(bs, k.b + 4 * (i - 1), 4)],
                                 !.key = IF v >= 9 /\ kb > 1 THEN <<>> ELSE <<kb # 0>>,
                                 !.toff = IF v >= 9 /\ ob = NullOffset THEN <<>> ELSE <<FromTwos(ob)>>,
                                 !.unof = IF us.v = <<>> THEN <<>> ELSE us.v[Len(us.v)]])
DecAghd(v, bs, k) ==
  IF k.e - k.b < 14 THEN Bad(-1)
  ELSE Good([NoHeader EXCEPT !.t = "audio", !.ints = <<Num(bs, k.b, 4), Num(bs, k.b + 4, 2), Num(bs, k.b + 6, 4), Num(bs, k.b + 10, 4)>>])
DecCahd(v, bs, k) ==
  IF k.e - k.b < 22 THEN Bad(-1)
  ELSE Good([NoHeader EXCEPT !.t = "coded_audio",
             !.ints = <<Num(bs, k.b, 4), Num(bs, k.b + 4, 2)>> \o [i \in 1..4 |-> Num(bs, k.b + 6 + 4 * (i - 1), 4)]])
DecEghd(v, bs, k) == Good([NoHeader EXCEPT !.t = "event"])
TypeTags == {T_vghd, T_cghd, T_aghd, T_cahd, T_eghd}
DecTypeHeader(v, bs, k) == CASE k.tag = T_vghd -> DecVghd(v, bs, k)
                             [] k.tag = T_cghd -> DecCghd(v, bs, k)
                             [] k.tag = T_aghd -> DecAghd(v, bs, k)
                             [] k.tag = T_cahd -> DecCahd(v, bs, k)
                             [] k.tag = T_eghd -> DecEghd(v, bs, k)
GbhdFixed(v) == (IF v = 7 THEN 48 ELSE 32) + 2 * TsLen(v) + 16
DecGbhd(v, bs, k) ==
  IF k.e - k.b < GbhdFixed(v) THEN Bad(-1)
  ELSE LET p == k.b + (IF v = 7 THEN 48 ELSE 32)
           q == p + 2 * TsLen(v)
           ks == Blocks(bs, q + 16, k.e)
       IN IF ~ks.ok THEN ks
          ELSE LET th == SelectSeq(ks.v, LAMBDA x: x.tag \in TypeTags)
                   hs == All([i \in 1..Len(th) |-> DecTypeHeader(v, bs, th[i])])
                   ls == All([i \in 1..Len(OnlyTag(ks.v, T_tils)) |-> DecTils(bs, OnlyTag(ks.v, T_tils)[i])])
               IN IF ~hs.ok THEN hs ELSE IF ~ls.ok THEN ls
                  ELSE LET h == IF hs.v = <<>> THEN NoHeader ELSE hs.v[Len(hs.v)] IN
                       Good([t |-> h.t, src |-> SubSeq(bs, k.b, k.b + 15), flow |-> SubSeq(bs, k.b + 16, k.b + 31),
                             ots |-> DecTs(v, bs, p), sts |-> DecTs(v, bs, p + TsLen(v)),
                             rate |-> RatAt(bs, q), dur |-> RatAt(bs, q + 8),
                             tls |-> IF ls.v = <<>> THEN <<>> ELSE ls.v[Len(ls.v)],
                             ints |-> h.ints, sar |-> h.sar, par |-> h.par, comps |-> h.comps, key |-> h.key,
                             toff |-> h.toff, unof |-> h.unof, data |-> <<>>])

(* the blocks of a grain up to its data: what follows the data may be skipped unread *)
RECURSIVE UpToData(_, _, _)
UpToData(bs, p, e) ==
  IF e = p THEN Good(<<>>)
  ELSE IF e - p < 8 THEN Bad(p - 1)
  ELSE LET tag == SubSeq(bs, p, p + 3)
           size == IntAt(bs, p + 4, 4)
           act == IF size < 8 THEN 8 ELSE size
           k == [tag |-> tag, p |-> p, b |-> p + 8, e |-> p + act]
       IN IF ~Utf8(UpToNul(tag)) THEN Bad(p - 1)
          ELSE IF act > e - p THEN Bad(-1)
          ELSE IF tag = T_grdt THEN Good(<<k>>)
          ELSE LET rest == UpToData(bs, p + act, e)
               IN IF rest.ok THEN Good(<<k>> \o rest.v) ELSE rest

(* a complete grai block [p, e): its grain *)
DecGrai(v, bs, p, e) ==
  LET ks == UpToData(bs, p + 10, e) IN
  IF e - p >= 14 /\ SubSeq(bs, p + 10, p + 13) # T_gbhd THEN Bad(p + 9)     \* a grain starts with its header
  ELSE IF ~ks.ok THEN ks
  ELSE IF ks.v = <<>> THEN Bad(-1)
  ELSE LET g == DecGbhd(v, bs, ks.v[1])
           ds == OnlyTag(ks.v, T_grdt)
       IN IF ~g.ok THEN g
          ELSE Good([g.v EXCEPT !.data = IF ds = <<>> THEN <<>> ELSE SubSeq(bs, ds[1].b, ds[1].e - 1)])

(* cut after the data of the last grai block: the blocks of bs[p..] that are complete *)
RECURSIVE WholeBlocks(_, _)
WholeBlocks(bs, p) ==
  IF Len(bs) + 1 - p < 8 THEN <<>>
  ELSE LET size == IntAt(bs, p + 4, 4) act == IF size < 8 THEN 8 ELSE size IN
       IF act > Len(bs) + 1 - p THEN <<>>
       ELSE <<[tag |-> SubSeq(bs, p, p + 3), p |-> p, b |-> p + 8, e |-> p + act]>> \o WholeBlocks(bs, p + act)
DecCutGrai(v, bs, p) ==
  LET ks == IF Len(bs) + 1 - p < 10 THEN <<>> ELSE WholeBlocks(bs, p + 10)
      ds == OnlyTag(ks, T_grdt)
  IN IF ks = <<>> \/ ds = <<>> \/ ks[1].tag # T_gbhd THEN <<>>
     ELSE LET g == DecGbhd(v, bs, ks[1]) IN
          IF ~g.ok THEN <<>>
          ELSE <<[lid |-> IntAt(bs, p + 8, 2), g |-> [g.v EXCEPT !.data = SubSeq(bs, ds[1].b, ds[1].e - 1)]]>>

Result(k, head, gs, maybe, off) == [k |-> k, head |-> head, grains |-> gs, maybe |-> maybe, off |-> off]

(* locate and decode the head block from p on *)
RECURSIVE FindHead(_, _)
FindHead(bs, p) ==
  LET left == Len(bs) + 1 - p IN
  IF left < 8 THEN [k |-> IF left <= 0 THEN "none" ELSE "cut", off |-> IF left = 0 THEN p - 1 ELSE -1]
  ELSE LET tag == SubSeq(bs, p, p + 3)
           size == IntAt(bs, p + 4, 4)
           act == IF size < 8 THEN 8 ELSE size
       IN IF ~Utf8(UpToNul(tag)) THEN [k |-> "bad", off |-> p - 1]
          ELSE IF tag # T_head THEN (IF act > left THEN [k |-> "cut", off |-> -1] ELSE FindHead(bs, p + act))
          ELSE IF act > left THEN [k |-> "cut", off |-> -1]
          ELSE LET h == DecHead(bs, [tag |-> tag, p |-> p, b |-> p + 8, e |-> p + act])
               IN IF h.ok THEN [k |-> "ok", head |-> h.v, e |-> p + act] ELSE [k |-> "bad", off |-> h.off]

Wanted(ids, lid) == ids = <<>> \/ \E i \in 1..Len(ids[1]) : ids[1][i] = lid

(* grains from p on.  conc: read concatenated files; ids: <<>> or <<seq of local ids>> *)
RECURSIVE Grains(_, _, _, _, _, _, _)
Grains(bs, p, v, head, acc, conc, ids) ==
  LET left == Len(bs) + 1 - p
      tag == SubSeq(bs, p, p + 3)
      size == IntAt(bs, p + 4, 4)
      act == IF size < 8 THEN 8 ELSE size
  IN
  IF left < 8 THEN Result("ok", head, acc, <<>>, -1)
  ELSE IF ~Utf8(UpToNul(tag)) THEN Result("bad", head, acc, <<>>, p - 1)
  ELSE IF tag = T_SSBB THEN
    IF SubSeq(bs, p + 4, p + 7) # T_grsg THEN Result("bad", head, acc, <<>>, p - 1)
    ELSE IF ~conc THEN Result("ok", head, acc, <<>>, -1)
    ELSE IF left < 12 THEN Result("cutlater", head, acc, <<>>, -1)
    ELSE IF IntAt(bs, p + 8, 2) \notin {7, 8, 9} THEN Result("version", head, acc, <<IntAt(bs, p + 8, 2), IntAt(bs, p + 10, 2)>>, -1)
    ELSE LET h == FindHead(bs, p + 12) IN
         CASE h.k = "ok" -> Grains(bs, h.e, IntAt(bs, p + 8, 2), h.head, acc, conc, ids)
           [] h.k = "bad" -> Result("bad", head, acc, <<>>, h.off)
           [] OTHER -> Result("cutlater", head, acc, <<>>, -1)
  ELSE IF tag # T_grai THEN
    IF act > left THEN Result("ok", head, acc, <<>>, -1) ELSE Grains(bs, p + act, v, head, acc, conc, ids)
  ELSE IF size = 0 THEN
    IF conc THEN Grains(bs, p + 8, v, head, acc, conc, ids) ELSE Result("ok", head, acc, <<>>, -1)
  ELSE IF act < 10 THEN Result(IF left < 10 THEN "cutlater" ELSE "bad", head, acc, <<>>, -1)
  ELSE IF left >= 10 /\ ~Wanted(ids, IntAt(bs, p + 8, 2)) THEN
    IF act > left THEN Result("ok", head, acc, <<>>, -1) ELSE Grains(bs, p + act, v, head, acc, conc, ids)
  ELSE IF act > left THEN Result("ok", head, acc, DecCutGrai(v, bs, p), -1)
  ELSE LET g == DecGrai(v, bs, p, p + act) IN
       IF ~g.ok THEN Result("bad", head, acc, <<>>, g.off)
       ELSE Grains(bs, p + act, v, head, Append(acc, [lid |-> IntAt(bs, p + 8, 2), g |-> g.v]), conc, ids)

NoHead == [id |-> <<>>, created |-> <<>>, segs |-> <<>>, tags |-> <<>>]
Decode(bs, conc, ids) ==
  IF Len(bs) < 8 THEN Result("cut", NoHead, <<>>, <<>>, -1)
  ELSE IF SubSeq(bs, 1, 8) # T_SSBB \o T_grsg THEN
    IF Utf8(UpToNul(SubSeq(bs, 1, 8))) THEN Result("filetype", NoHead, <<>>, UpToNul(SubSeq(bs, 1, 8)), 0)
    ELSE Result("bad", NoHead, <<>>, <<>>, 0)
  ELSE IF Len(bs) < 12 THEN Result("cut", NoHead, <<>>, <<>>, -1)
  ELSE IF IntAt(bs, 9, 2) \notin {7, 8, 9} THEN Result("version", NoHead, <<>>, <<IntAt(bs, 9, 2), IntAt(bs, 11, 2)>>, 0)
  ELSE LET h == FindHead(bs, 13) IN
       CASE h.k = "ok" -> Grains(bs, h.e, IntAt(bs, 9, 2), h.head, <<>>, conc, ids)
         [] h.k = "bad" -> Result("bad", NoHead, <<>>, <<>>, h.off)
         [] h.k = "none" -> Result("bad", NoHead, <<>>, <<>>, h.off)
         [] OTHER -> Result("cut", NoHead, <<>>, <<>>, -1)
=============================================================================
