---------------------------- MODULE BlockReader -----------------------------
(* Reading a GSF file block by block.  A file is [lo, b, p]: bytes b from offset lo on, read position p (an offset, which    *)
(* may lie beyond the end).  A session is [fs, blocks]: the file, and copies of parts of it read into memory (fs), and the   *)
(* blocks entered and not yet left, innermost last, each [f, start, size, tag, copy]; the first is the file itself (size     *)
(* -1), in no block.  An operation gives [res, off, val, s]: res "ok", "eof" (the source ends first), "decode" (malformed,   *)
(* off where) or "assert" (not in a block); val a sequence of sequences of numbers.                                          *)
EXTENDS Bytes, Calendar, TLC
LOCAL Max2(a, b) == IF a > b THEN a ELSE b
Hi(f) == f.lo + Len(f.b)
Have(f) == Max2(0, Hi(f) - f.p)
To(f, p) == [f EXCEPT !.p = p]
ToEnd(f) == To(f, Max2(f.p, Hi(f)))
Far == 536870912
Size(l) == IF ToInt(l) > Far THEN Far ELSE ToInt(l)
(* one read: [res, off, v, f] *)
Got(v, f) == [res |-> "ok", off |-> -1, v |-> v, f |-> f]
Eof(f) == [res |-> "eof", off |-> -1, v |-> <<>>, f |-> ToEnd(f)]
Wrong(off, f) == [res |-> "decode", off |-> off, v |-> <<>>, f |-> f]
Get(f, n) == IF n > Have(f) THEN Eof(f) ELSE Got(SubSeq(f.b, f.p - f.lo + 1, f.p - f.lo + n), To(f, f.p + n))
Str(f, start, n) == LET g == Get(f, n) IN
                    IF g.res # "ok" THEN g
                    ELSE IF Utf8(UpToNul(g.v)) THEN Got(UpToNul(g.v), g.f) ELSE Wrong(start, g.f)
Sized(f, w, Then(_, _)) == LET g == Get(f, w) IN IF g.res # "ok" THEN g ELSE Then(Size(g.v), g.f)
(* signed values as <<<<sign>>, limbs>> *)
Signed(x) == <<<<x[1]>>, x[2]>>
NSec == <<0, 202, 154, 59>>
Total(sign, sec, ns) == LET t == LAdd(LMul(sec, NSec), ns) IN <<<<IF t = <<>> THEN 1 ELSE sign>>, t>>
AnyTime == <<<<0>>>>                                                \* too late for the library's timestamps
Time(v, sign, i) == IF Cmp(SubSeq(v, i, i + 5), <<240, 255, 255, 255, 255, 255>>) >= 0 THEN AnyTime
                    ELSE Total(sign, Trim(SubSeq(v, i, i + 5)), Trim(SubSeq(v, i + 6, i + 9)))
Year(v) == LET x == FromTwos(SubSeq(v, 1, 2)) IN x[1] * ToInt(x[2])
Date(v) == <<Year(v), v[3], v[4], v[5], v[6], v[7]>>
(* the values of a block's bytes *)
As(f, n, F(_)) == LET g == Get(f, n) IN IF g.res # "ok" THEN g ELSE Got(F(g.v), g.f)
One(g) == IF g.res = "ok" THEN Got(<<g.v>>, g.f) ELSE g
Read(f, start, op, n, null) ==
  CASE op = "uint" -> As(f, n, LAMBDA v: <<Trim(v)>>)
    [] op = "sint" -> As(f, n, LAMBDA v: Signed(FromTwos(v)))
    [] op = "optsint" -> As(f, n, LAMBDA v: IF Trim(v) = null THEN <<>> ELSE Signed(FromTwos(v)))
    [] op = "bool" -> As(f, 1, LAMBDA v: <<<<IF v[1] = 0 THEN 0 ELSE 1>>>>)
    [] op = "optbool" -> As(f, 1, LAMBDA v: IF v[1] > 1 THEN <<>> ELSE <<<<v[1]>>>>)
    [] op = "tag" -> One(Str(f, start, 4))
    [] op = "string" -> One(Str(f, start, n))
    [] op = "varstring" -> One(Sized(f, 2, LAMBDA m, g: Str(g, start, m)))
    [] op = "uuid" -> As(f, 16, LAMBDA v: <<v>>)
    [] op = "varbytes" -> One(Sized(f, 4, LAMBDA m, g: Get(g, m)))
    [] op = "rational" -> As(f, 8, LAMBDA v: <<Trim(SubSeq(v, 1, 4)), Trim(SubSeq(v, 5, 8))>>)
    [] op = "timestamp" -> As(f, 11, LAMBDA v: Time(v, IF v[1] = 0 THEN -1 ELSE 1, 2))
    [] op = "timestamp7" -> As(f, 10, LAMBDA v: Time(v, 1, 1))
    [] op = "skip" -> Got(<<>>, To(f, f.p + n))
    [] OTHER -> LET g == Get(f, 7) IN                                \* datetime
                IF g.res # "ok" THEN g
                ELSE IF Trim(g.v) = <<>> THEN Got(<<>>, g.f)
                ELSE IF ValidDate(Date(g.v)) THEN Got(<<Date(g.v)>>, g.f) ELSE Wrong(start, g.f)
Values == {"uint", "sint", "optsint", "bool", "optbool", "tag", "string", "varstring", "uuid", "varbytes", "rational", "timestamp", "timestamp7", "skip", "datetime"}
(* the next block from start on that is wanted (want: <<>> any, or <<tag>>; strict: refuse any other): v its [tag, size, start] *)
SSBB == <<83, 83, 66, 66>>
grsg == <<103, 114, 115, 103>>
Whole(size) == Max2(8, size)                                        \* a size below eight is a special value, of eight bytes
RECURSIVE Find(_, _, _, _)
Find(f, start, want, strict) ==
  LET t == Str(f, start, 4)
      u == IF t.v = SSBB THEN Str(t.f, start, 4) ELSE As(t.f, 4, LAMBDA v: v)
      size == IF t.v = SSBB THEN 8 ELSE Size(u.v)
  IN IF t.res # "ok" THEN t
     ELSE IF u.res # "ok" THEN u
     ELSE IF t.v = SSBB /\ u.v # grsg THEN Wrong(start, u.f)
     ELSE IF want = <<>> \/ want[1] = t.v THEN Got([tag |-> t.v, size |-> size, start |-> start], u.f)
     ELSE IF strict THEN Wrong(start, u.f)
     ELSE Find(To(u.f, start + Whole(size)), start + Whole(size), want, strict)
End(b) == b.start + Whole(b.size)
Left(b, f) == b.start + b.size - f.p
Room(b, f, strict) == IF Left(b, f) >= 8 THEN "yes" ELSE IF Left(b, f) # 0 /\ strict THEN "part" ELSE "no"
(* every further child block, n bytes read of each: v their [tag, size, start] *)
RECURSIVE Kids(_, _, _, _, _)
Kids(b, f, strict, n, seen) ==
  LET r == Room(b, f, strict)
      k == Find(f, f.p, <<>>, FALSE)
      g == Get(k.f, n)
      here == Append(seen, k.v)
  IN IF r = "no" THEN Got(seen, f)
     ELSE IF r = "part" THEN Wrong(f.p, f) @@ [seen |-> seen]
     ELSE IF k.res # "ok" THEN k @@ [seen |-> seen]
     ELSE IF g.res # "ok" THEN g @@ [seen |-> here]
     ELSE IF g.f.p > End(k.v) THEN Wrong(k.v.start, g.f) @@ [seen |-> here]
     ELSE Kids(b, To(g.f, End(k.v)), strict, n, here)
(* a session *)
Session(lo, bytes, p) == [fs |-> <<[lo |-> lo, b |-> bytes, p |-> p]>>, blocks |-> <<[f |-> 1, start |-> p, size |-> -1, tag |-> <<>>, copy |-> FALSE]>>]
Top(s) == s.blocks[Len(s.blocks)]
File(s) == s.fs[Top(s).f]
With(s, f) == [s EXCEPT !.fs[Top(s).f] = f]
In(s) == Top(s).size >= 0
Leave(s) == [s EXCEPT !.blocks = SubSeq(@, 1, Len(@) - 1)]
AtEnd(s) == IF Top(s).copy THEN Leave(s) ELSE Leave(With(s, To(File(s), End(Top(s)))))
RECURSIVE Abandon(_, _)
Abandon(s, k) == IF k = 0 THEN s ELSE Abandon(AtEnd(s), k - 1)
Res(res, off, val, s) == [res |-> res, off |-> off, val |-> val, kids |-> <<>>, s |-> s]
OfRead(s, g) == Res(g.res, g.off, g.v, With(s, g.f))
NotIn(s) == Res("assert", -1, <<>>, s)
Do(s, op) ==
  LET b == Top(s)
      f == File(s)
      left == Left(b, f)
  IN CASE op.op \in Values -> OfRead(s, Read(f, b.start, op.op, op.n, op.null))
       [] op.op = "enter" -> LET g == Find(f, f.p, op.want, op.strict)
                             IN IF g.res # "ok" THEN OfRead(s, g)
                                ELSE Res("ok", -1, <<>>, [With(s, g.f) EXCEPT !.blocks = Append(@, g.v @@ [f |-> b.f, copy |-> FALSE])])
       [] op.op = "leave" -> IF f.p > End(b) THEN Res("decode", b.start, <<>>, Leave(s)) ELSE Res("ok", -1, <<>>, AtEnd(s))
       [] op.op = "drop" -> Res("ok", -1, <<>>, Leave(s))
       [] op.op = "abandon" -> Res("ok", -1, <<>>, Abandon(s, op.n))
       [] ~In(s) -> NotIn(s)
       [] op.op = "remaining" -> Res("ok", -1, <<<<left>>>>, s)
       [] op.op = "room" -> LET r == Room(b, f, op.strict)
                            IN IF r = "part" THEN Res("decode", f.p, <<>>, s) ELSE Res("ok", -1, <<<<IF r = "yes" THEN 1 ELSE 0>>>>, s)
       [] op.op = "rest" -> IF left < 0 THEN Res("beyond", -1, <<>>, s) ELSE OfRead(s, One(Get(f, left)))
       [] op.op = "skiprest" -> IF left <= 0 THEN Res("ok", -1, <<>>, s)
                                ELSE LET g == Get(f, left) IN OfRead(s, IF g.res = "ok" THEN Got(<<>>, g.f) ELSE g)
       [] op.op = "copy" -> LET g == Get(f, Max2(0, left))
                            IN IF g.res # "ok" THEN OfRead(s, g)
                               ELSE Res("ok", -1, <<>>, [With(s, g.f) EXCEPT !.fs = Append(@, [lo |-> f.p, b |-> g.v, p |-> f.p]),
                                                                             !.blocks = Append(@, [b EXCEPT !.f = Len(s.fs) + 1, !.copy = TRUE])])
       [] OTHER -> LET g == Kids(b, f, op.strict, op.n, <<>>)
                   IN [res |-> g.res, off |-> g.off, val |-> <<>>, kids |-> IF g.res = "ok" THEN g.v ELSE g.seen, s |-> With(s, g.f)]
=============================================================================
