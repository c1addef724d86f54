---------------------------- MODULE MC_GrainTime ----------------------------
(* The laws of grain times on small numbers: every time, rate, count and offset in range; and Big against TLC's own. *)
EXTENDS GrainTime, TLC
CONSTANT N
VARIABLES x, y, num, den, k
vars == <<x, y, num, den, k>>
NS12 == ZOf(12)
Init == x \in -N..N /\ y \in -N..N /\ num \in 0..4 /\ den \in 1..3 /\ k \in -3..4
MNext == UNCHANGED vars
R == <<ZOf(num), ZOf(den)>>
G(t) == [type |-> t, ts |-> ZOf(x), rate |-> R, samples |-> ZOf(k), srate |-> ZOf(num), toff |-> IF y % 2 = 0 THEN <<ZOf(k)>> ELSE <<>>]
Abs(i) == IF i < 0 THEN -i ELSE i
M == 40503 * x + y           \* several digits
Numbers ==
  /\ ZInt(ZAdd(ZOf(M), ZOf(y))) = M + y /\ ZInt(ZSub(ZOf(y), ZOf(M))) = y - M /\ ZInt(ZMul(ZOf(M), ZOf(k))) = M * k
  /\ ZCmp(ZOf(M), ZOf(y)) = (IF M < y THEN -1 ELSE IF M = y THEN 0 ELSE 1) /\ ZOf(M) = ZAdd(ZOf(M - 4095), ZOf(4095))
  /\ y # 0 => ZInt(ZFloor(ZOf(M), ZOf(y))) = (IF y > 0 THEN M \div y ELSE (-M) \div (-y))
  /\ num > 0 => ZInt(ZTrunc(ZMul(ZOf(M), ZOf(num)), ZOf(num))) = M /\ ZMul(ZOf(M), ZOf(M)) = ZMul(ZOf(-M), ZOf(-M))
Times ==
  \A t \in {"empty", "event", "video", "coded_video", "audio", "coded_audio"} :
    LET g == G(t) IN
    ~Undefined(g) =>
    /\ t \in {"empty", "event"} => MediaRate(g) = <<>>
    /\ t \notin Audio => Final(g) = g.ts /\ Origin(g) = <<<<g.ts>>, <<g.ts>>, <<TRUE, TRUE>>>>
    /\ (t \in Audio /\ k <= 0) => Origin(g) = Empty \/ Final(g) = g.ts
    /\ (t \in Audio /\ k >= 1) => Origin(g) = <<<<g.ts>>, <<Final(g)>>, <<TRUE, TRUE>>>> /\ ZCmp(Final(g), g.ts) >= 0
    /\ t # "coded_video" => Presentation(g) = Origin(g)
    /\ Origin(g) # Empty => Presentation(g)[3] = Origin(g)[3] /\ ZSub(Presentation(g)[2][1], Presentation(g)[1][1]) = ZSub(Origin(g)[2][1], Origin(g)[1][1])
    /\ \A v \in NormTime(g, ZOf(y)) :
         /\ v \in NormTime(g, v)                                                   \* idempotent
         /\ MediaRate(g) = <<>> => v = ZOf(y)
         /\ MediaRate(g) # <<>> => 2 * MediaRate(g)[1][1][2][1] * Abs(ZInt(v) - y) <= 12 * ZInt(MediaRate(g)[1][2]) + 4 * ZInt(MediaRate(g)[1][1])
    /\ NormTime(g, ZOf(y)) # {}
Laws == Numbers /\ Times
=============================================================================
