-------------------------------- MODULE H264 --------------------------------
(* H.264 byte streams (Annex B): units, parameter sets, slice headers, and where a new picture starts.  Operators on     *)
(* sequences of bytes; a reader's place is a bit number, -1 once it has run out of data.                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS BigOf(_), BigMul(_, _), BigAdd(_, _)
(* ---- bits ---- *)
RECURSIVE BitsAt(_, _, _)
BitsAt(r, p, n) == IF n = 0 THEN 0
                   ELSE IF p % 8 = 0 /\ n >= 8 THEN (r[(p \div 8) + 1] * 2 ^ (n - 8)) + BitsAt(r, p + 8, n - 8)
                   ELSE (((r[(p \div 8) + 1] \div (2 ^ (7 - (p % 8)))) % 2) * 2 ^ (n - 1)) + BitsAt(r, p + 1, n - 1)
Out(v) == [p |-> -1, v |-> v]
U(r, p, n) == IF p < 0 \/ p + n > 8 * Len(r) THEN Out(0) ELSE [p |-> p + n, v |-> BitsAt(r, p, n)]
RECURSIVE Zeros(_, _)
Zeros(r, p) == IF p >= 8 * Len(r) THEN -1
               ELSE IF p % 8 = 0 /\ r[(p \div 8) + 1] = 0 THEN (LET z == Zeros(r, p + 8) IN IF z < 0 THEN -1 ELSE z + 8)
               ELSE IF BitsAt(r, p, 1) = 1 THEN 0 ELSE (LET z == Zeros(r, p + 1) IN IF z < 0 THEN -1 ELSE z + 1)
Huge == 2 ^ 29
UE(r, p) == IF p < 0 THEN Out(0)
            ELSE LET z == Zeros(r, p)
                 IN IF z < 0 \/ p + (2 * z) + 1 > 8 * Len(r) THEN Out(0)
                    ELSE [p |-> p + (2 * z) + 1, v |-> IF z > 28 THEN Huge ELSE BitsAt(r, p + z, z + 1) - 1]
SE(r, p) == LET u == UE(r, p) IN [p |-> u.p, v |-> IF u.v % 2 = 1 THEN (u.v + 1) \div 2 ELSE -(u.v \div 2)]
Else(p, v) == [p |-> p, v |-> v]
RECURSIVE SEs(_, _, _)
SEs(r, p, n) == IF n = 0 \/ p < 0 THEN p ELSE SEs(r, SE(r, p).p, n - 1)
RECURSIVE UEs(_, _, _)
UEs(r, p, n) == IF n = 0 \/ p < 0 THEN p ELSE UEs(r, UE(r, p).p, n - 1)
(* ---- units ---- *)
Starts(b) == SetToSortSeq({ i \in 0..(Len(b) - 3) : b[i + 1] = 0 /\ b[i + 2] = 0 /\ b[i + 3] = 1 }, LAMBDA x, y: x < y)
Upto(b, S, i) == IF i < Len(S) THEN S[i + 1] ELSE Len(b)
(* the unit's bytes after its start code, without the emulation prevention bytes *)
Payload(b, S, i) ==
  LET u == SubSeq(b, S[i] + 4, Upto(b, S, i))
      e == { k \in 3..Len(u) : u[k] = 3 /\ u[k - 1] = 0 /\ u[k - 2] = 0 }
  IN IF e = {} THEN u ELSE LET keep == SetToSortSeq((1..Len(u)) \ e, LAMBDA x, y: x < y) IN [k \in 1..Len(keep) |-> u[keep[k]]]
Head8(b, S, i) == IF Upto(b, S, i) > S[i] + 3 THEN b[S[i] + 4] ELSE -1
UType(h) == h % 32
UNri(h) == (h \div 32) % 4
SliceA == {1, 2, 5}                        \* units that hold a slice header
Delimiting == {6, 7, 8, 9, 15, 16, 17, 18} \* after the primary slices: the next picture's
(* ---- sequence parameter set ---- *)
HighProfiles == {100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135}
RECURSIVE Scale(_, _, _, _, _)
Scale(r, p, n, last, next) ==
  IF n = 0 \/ p < 0 THEN p
  ELSE IF next = 0 THEN p
  ELSE LET d == SE(r, p)
           x == (last + d.v + 256) % 256
       IN Scale(r, d.p, n - 1, IF x = 0 THEN last ELSE x, x)
RECURSIVE Scales(_, _, _, _)
Scales(r, p, i, n) == IF i = n \/ p < 0 THEN p
                      ELSE LET f == U(r, p, 1) IN Scales(r, IF f.v = 1 THEN Scale(r, f.p, IF i < 6 THEN 16 ELSE 64, 8, 8) ELSE f.p, i + 1, n)
Sps(r) ==
  LET profile == U(r, 8, 8)
      flags == U(r, profile.p, 8)
      level == U(r, flags.p, 8)
      id == UE(r, level.p)
      high == profile.v \in HighProfiles /\ id.p >= 0
      cfi == IF high THEN UE(r, id.p) ELSE Else(id.p, 1)
      sep == IF high /\ cfi.v = 3 THEN U(r, cfi.p, 1) ELSE Else(cfi.p, 0)
      luma == IF high THEN UE(r, sep.p) ELSE Else(sep.p, 0)
      chroma == IF high THEN UE(r, luma.p) ELSE Else(luma.p, 0)
      bypass == IF high THEN U(r, chroma.p, 1) ELSE Else(chroma.p, 0)
      matrix == IF high THEN U(r, bypass.p, 1) ELSE Else(bypass.p, 0)
      scaled == IF matrix.v = 1 THEN Scales(r, matrix.p, 0, IF cfi.v = 3 THEN 12 ELSE 8) ELSE matrix.p
      framebits == UE(r, scaled)
      poctype == UE(r, framebits.p)
      lsbbits == IF poctype.v = 0 THEN UE(r, poctype.p) ELSE Else(poctype.p, 0)
      zero == IF poctype.v = 1 THEN U(r, lsbbits.p, 1) ELSE Else(lsbbits.p, 0)
      cycle == IF poctype.v = 1 THEN UE(r, SEs(r, zero.p, 2)) ELSE Else(zero.p, 0)
      refs == UE(r, IF cycle.v <= 255 THEN SEs(r, cycle.p, cycle.v) ELSE -1)
      gaps == U(r, refs.p, 1)
      w == UE(r, gaps.p)
      h == UE(r, w.p)
      frames == U(r, h.p, 1)
      adaptive == IF frames.v = 0 THEN U(r, frames.p, 1) ELSE Else(frames.p, 0)
      crop == U(r, U(r, adaptive.p, 1).p, 1)
      cl == IF crop.v = 1 THEN UE(r, crop.p) ELSE Else(crop.p, 0)
      cr == IF crop.v = 1 THEN UE(r, cl.p) ELSE Else(cl.p, 0)
      ct == IF crop.v = 1 THEN UE(r, cr.p) ELSE Else(cr.p, 0)
      cb == IF crop.v = 1 THEN UE(r, ct.p) ELSE Else(ct.p, 0)
      vui == U(r, cb.p, 1)
      ar == IF vui.v = 1 THEN U(r, vui.p, 1) ELSE Else(vui.p, 0)
      arc == IF ar.v = 1 THEN U(r, ar.p, 8) ELSE Else(ar.p, 0)
      sw == IF arc.v = 255 THEN U(r, arc.p, 16) ELSE Else(arc.p, 0)
      sh == IF arc.v = 255 THEN U(r, sw.p, 16) ELSE Else(sw.p, 0)
      over == IF vui.v = 1 THEN U(r, sh.p, 1) ELSE Else(sh.p, 0)
      overa == IF over.v = 1 THEN U(r, over.p, 1) ELSE Else(over.p, 0)
      sig == IF vui.v = 1 THEN U(r, overa.p, 1) ELSE Else(overa.p, 0)
      sigd == IF sig.v = 1 THEN U(r, U(r, sig.p, 4).p, 1) ELSE Else(sig.p, 0)
      colour == IF sigd.v = 1 THEN U(r, sigd.p, 24) ELSE Else(sigd.p, 0)
      loc == IF vui.v = 1 THEN U(r, colour.p, 1) ELSE Else(colour.p, 0)
      locs == IF loc.v = 1 THEN UEs(r, loc.p, 2) ELSE loc.p
      tim == IF vui.v = 1 THEN U(r, locs, 1) ELSE Else(locs, 0)
      t1 == IF tim.v = 1 THEN U(r, tim.p, 16) ELSE Else(tim.p, 0)
      t2 == IF tim.v = 1 THEN U(r, t1.p, 16) ELSE Else(t1.p, 0)
      t3 == IF tim.v = 1 THEN U(r, t2.p, 16) ELSE Else(t2.p, 0)
      t4 == IF tim.v = 1 THEN U(r, t3.p, 16) ELSE Else(t3.p, 0)
      fixed == IF tim.v = 1 THEN U(r, t4.p, 1) ELSE Else(t4.p, 0)
  IN [res |-> IF id.v > 31 \/ cfi.v > 3 \/ luma.v > 6 \/ chroma.v > 6 \/ cycle.v > 255 THEN "invalid" ELSE IF fixed.p < 0 THEN "short" ELSE "ok",
      id |-> id.v, profile |-> profile.v, flags |-> flags.v, level |-> level.v, sep |-> sep.v, depth |-> luma.v + 8,
      cat |-> IF sep.v = 1 THEN 0 ELSE cfi.v, framebits |-> framebits.v + 4, poctype |-> poctype.v, lsbbits |-> lsbbits.v + 4, zero |-> zero.v,
      w |-> w.v + 1, h |-> h.v + 1, frames |-> frames.v, crop |-> <<cl.v, cr.v, ct.v, cb.v>>, arc |-> arc.v, sar |-> <<sw.v, sh.v>>,
      timing |-> tim.v, units |-> <<t1.v, t2.v>>, scale |-> <<t3.v, t4.v>>, fixed |-> fixed.v]
(* ---- picture parameter set ---- *)
RECURSIVE BitWidth(_)
BitWidth(n) == IF n = 0 THEN 0 ELSE 1 + BitWidth(n \div 2)         \* for n > 0, Ceil(Log2(n + 1))
RECURSIVE Skips(_, _, _, _)
Skips(r, p, n, w) == IF n = 0 \/ p < 0 THEN p ELSE Skips(r, U(r, p, w).p, n - 1, w)
Pps(r) ==
  LET id == UE(r, 8)
      sps == UE(r, id.p)
      bottom == U(r, U(r, sps.p, 1).p, 1)
      groups == UE(r, bottom.p)
      kind == IF groups.v > 0 THEN UE(r, groups.p) ELSE Else(groups.p, 0)
      size == IF groups.v > 0 /\ kind.v = 6 THEN UE(r, kind.p) ELSE Else(kind.p, 0)
      map == IF groups.v = 0 THEN groups.p
             ELSE CASE kind.v = 0 -> UEs(r, kind.p, groups.v + 1)
                    [] kind.v = 2 -> UEs(r, kind.p, 2 * groups.v)
                    [] kind.v \in 3..5 -> UE(r, U(r, kind.p, 1).p).p
                    [] kind.v = 6 -> Skips(r, size.p, size.v + 1, BitWidth(groups.v))
                    [] OTHER -> kind.p
      weights == U(r, UEs(r, map, 2), 3)
      qps == SEs(r, weights.p, 3)
      redundant == U(r, U(r, qps, 2).p, 1)
  IN [res |-> IF redundant.p < 0 THEN "short" ELSE "ok", id |-> id.v, sps |-> sps.v, bottom |-> bottom.v, redundant |-> redundant.v]
(* ---- slice header; S: the parameter sets so far ---- *)
Slice(r, S) ==
  LET mb == UE(r, 8)
      stype == UE(r, mb.p)
      pps == UE(r, stype.p)
      have == pps.v \in DOMAIN S.pps /\ S.pps[pps.v].sps \in DOMAIN S.sps
      P == S.pps[pps.v]
      Q == S.sps[P.sps]
      idr == UType(r[1]) = 5
      plane == IF Q.sep = 1 THEN U(r, pps.p, 2) ELSE Else(pps.p, 0)
      num == U(r, plane.p, Q.framebits)
      field == IF Q.frames = 0 THEN U(r, num.p, 1) ELSE Else(num.p, 0)
      bottom == IF field.v = 1 THEN U(r, field.p, 1) ELSE Else(field.p, 0)
      idrid == IF idr THEN UE(r, bottom.p) ELSE Else(bottom.p, 0)
      lsb == IF Q.poctype = 0 THEN U(r, idrid.p, Q.lsbbits) ELSE Else(idrid.p, 0)
      second == P.bottom = 1 /\ field.v = 0
      db == IF Q.poctype = 0 /\ second THEN SE(r, lsb.p) ELSE Else(lsb.p, 0)
      d0 == IF Q.poctype = 1 /\ Q.zero = 0 THEN SE(r, db.p) ELSE Else(db.p, 0)
      d1 == IF Q.poctype = 1 /\ Q.zero = 0 /\ second THEN SE(r, d0.p) ELSE Else(d0.p, 0)
      red == IF P.redundant = 1 THEN UE(r, d1.p) ELSE Else(d1.p, 0)
  IN IF pps.p < 0 THEN [res |-> "short"] ELSE IF ~have THEN [res |-> "invalid"] ELSE IF red.p < 0 THEN [res |-> "short"]
     ELSE [res |-> "ok", pps |-> pps.v, nri |-> UNri(r[1]), idr |-> idr, stype |-> stype.v, num |-> num.v, field |-> field.v, bottom |-> bottom.v,
           idrid |-> idrid.v, lsb |-> lsb.v, db |-> db.v, d0 |-> d0.v, d1 |-> d1.v, red |-> red.v, poctype |-> Q.poctype]
(* 7.4.1.2.4: the slice is not of the picture that slice f is of *)
NewPicture(s, f) == \/ s.num # f.num \/ s.pps # f.pps \/ s.field # f.field \/ s.bottom # f.bottom
                    \/ (s.nri # f.nri /\ (s.nri = 0 \/ f.nri = 0))
                    \/ s.idr # f.idr \/ (s.idr /\ s.idrid # f.idrid)
                    \/ (s.poctype = 0 /\ (s.lsb # f.lsb \/ s.db # f.db))
                    \/ (s.poctype = 1 /\ (s.d0 # f.d0 \/ s.d1 # f.d1))
(* ---- what is known of a picture ---- *)
Intra == {2, 4, 7, 9}
Aspects == <<<<0, 1>>, <<1, 1>>, <<12, 11>>, <<10, 11>>, <<16, 11>>, <<40, 33>>, <<24, 11>>, <<20, 11>>, <<32, 11>>, <<80, 33>>, <<18, 11>>, <<15, 11>>,
             <<64, 33>>, <<160, 99>>, <<4, 3>>, <<3, 2>>, <<2, 1>>>>
Word(h) == BigAdd(BigMul(BigOf(h[1]), BigOf(65536)), BigOf(h[2]))
Info(S, slices) ==
  LET Q == S.sps[S.pps[slices[1].pps].sps]
      ux == IF Q.cat \in {1, 2} THEN 2 ELSE 1
      uy == (IF Q.cat = 1 THEN 2 ELSE 1) * (2 - Q.frames)
      cw == 16 * Q.w
      chh == 16 * Q.h * (2 - Q.frames)
  IN IF Q.timing = 1 /\ (Q.units = <<0, 0>> \/ Q.scale = <<0, 0>>) THEN [res |-> "invalid"]
     ELSE [res |-> "ok", profile |-> Q.profile, flags |-> Q.flags, level |-> Q.level, depth |-> Q.depth, cw |-> cw, ch |-> chh,
           w |-> cw - (ux * (Q.crop[1] + Q.crop[2])), h |-> chh - (uy * (Q.crop[3] + Q.crop[4])),
           sar |-> IF Q.arc = 255 THEN (IF Q.sar[2] = 0 THEN <<<<0, 1>>>> ELSE <<Q.sar>>) ELSE IF Q.arc < Len(Aspects) THEN <<Aspects[Q.arc + 1]>> ELSE <<>>,
           rate |-> IF Q.timing = 1 THEN << <<Word(Q.scale), BigMul(Word(Q.units), BigOf(IF slices[1].field = 1 THEN 1 ELSE 2))>> >> ELSE <<>>,
           fixed |-> Q.timing = 1 /\ Q.fixed = 1,
           key |-> \A i \in 1..Len(slices) : slices[i].stype \in Intra]
NoSets == [sps |-> [i \in {} |-> 0], pps |-> [i \in {} |-> 0]]
WithSps(S, q) == [S EXCEPT !.sps = [i \in (DOMAIN S.sps) \cup {q.id} |-> IF i = q.id THEN q ELSE S.sps[i]]]
WithPps(S, q) == [S EXCEPT !.pps = [i \in (DOMAIN S.pps) \cup {q.id} |-> IF i = q.id THEN q ELSE S.pps[i]]]
(* ---- the first picture in b, whose unit starts are T: found (next: the unit that is the next picture's), or not, or   *)
(* refused; the parameter sets after it                                                                                  *)
RECURSIVE Scan(_, _, _, _, _)
Scan(b, T, i, S, slices) ==
  LET end(k) == [res |-> k, S |-> S, slices |-> slices, next |-> i]
      h == Head8(b, T, i)
      t == UType(h)
      r == Payload(b, T, i)
  IN IF i > Len(T) THEN end("open")
     ELSE IF h < 0 THEN end("short")
     ELSE IF t \in SliceA THEN
        LET s == Slice(r, S)
        IN IF s.res # "ok" THEN end(s.res)
           ELSE IF s.red # 0 THEN Scan(b, T, i + 1, S, slices)
           ELSE IF slices # <<>> /\ NewPicture(s, slices[1]) THEN end("found")
           ELSE Scan(b, T, i + 1, S, Append(slices, s))
     ELSE IF slices # <<>> /\ t \in Delimiting THEN end("found")
     ELSE IF t = 7 THEN (LET q == Sps(r) IN IF q.res # "ok" THEN end(q.res) ELSE Scan(b, T, i + 1, WithSps(S, q), slices))
     ELSE IF t = 8 THEN (LET q == Pps(r) IN IF q.res # "ok" THEN end(q.res) ELSE Scan(b, T, i + 1, WithPps(S, q), slices))
     ELSE Scan(b, T, i + 1, S, slices)
(* the picture ends where the next one's first unit starts, a fourth start code byte being the next one's *)
EndAt(b, T, next) == IF T[next] > 0 /\ b[T[next]] = 0 THEN T[next] - 1 ELSE T[next]
Found(b, S) ==
  LET T == Starts(b)
      f == Scan(b, T, 1, S, <<>>)
  IN IF f.res = "found" THEN LET info == Info(f.S, f.slices)
                             IN IF info.res = "invalid" THEN [res |-> "refused", S |-> f.S]
                                ELSE [res |-> "found", S |-> f.S, size |-> EndAt(b, T, f.next), units |-> SubSeq(T, 1, f.next - 1), info |-> <<info>>]
     ELSE [res |-> IF f.res = "invalid" THEN "refused" ELSE "more", S |-> f.S]
(* all there is is one picture: the last of a stream *)
LastOne(b, S) ==
  LET T == Starts(b)
      f == Scan(b, T, 1, S, <<>>)
      info == Info(f.S, f.slices)
  IN IF T = <<>> THEN [res |-> "nothing"]
     ELSE IF f.res # "open" THEN [res |-> "refused"]
     ELSE IF f.slices = <<>> THEN [res |-> "found", size |-> Len(b), units |-> T, info |-> <<>>]
     ELSE IF info.res = "invalid" THEN [res |-> "refused"]
     ELSE [res |-> "found", size |-> Len(b), units |-> T, info |-> <<info>>]
RECURSIVE Pictures(_, _, _)
Pictures(b, S, at) ==
  LET f == Found(b, S)
      l == LastOne(b, S)
  IN IF f.res = "found" THEN LET rest == Pictures(SubSeq(b, f.size + 1, Len(b)), f.S, at + f.size)
                             IN [end |-> rest.end, frames |-> << [from |-> at, len |-> f.size, units |-> f.units, info |-> f.info] >> \o rest.frames]
     ELSE IF f.res = "refused" \/ l.res = "refused" THEN [end |-> "refused", frames |-> <<>>]
     ELSE IF l.res = "nothing" THEN [end |-> "end", frames |-> <<>>]
     ELSE [end |-> "end", frames |-> << [from |-> at, len |-> Len(b), units |-> l.units, info |-> l.info] >>]
=============================================================================
