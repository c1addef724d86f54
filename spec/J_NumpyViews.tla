---------------------------- MODULE J_NumpyViews ----------------------------
(* C14.  case: L, first (result of building the grain), v0, w0, obs0, evs: [op, i, c, x, y, v, w, sh, res, obs];     *)
(* obs: per grain [has, raw, type, rtype, shapes, dumps, names, len]                                                *)
EXTENDS Judge, NumpyViews
One(S, i, o) ==
  LET L == S.L
      b == Buf(S, i).v
  IN IF S.g[i] = 0 THEN (IF o.has \/ o.shapes # <<>> THEN {"data or views without data"} ELSE {})
     ELSE IF ~o.has THEN {"no data"}
     ELSE (IF o.raw # b THEN {"bytes " \o ToString(o.raw) \o ", expected " \o ToString(b)} ELSE {})
          \union (IF o.arr # b \/ o.atype # RawType(L) THEN {"made into an array it is " \o ToString(<<o.atype, o.arr>>)} ELSE {})
          \union (IF o.rtype # RawType(L) THEN {"type of the data " \o ToString(o.rtype)} ELSE {})
          \union (IF o.len # Len(b) THEN {"length " \o ToString(o.len)} ELSE {})
          \union (IF Len(o.shapes) # Views(L) THEN {"views " \o ToString(o.shapes)}
                  ELSE UNION { (IF o.shapes[c] # Shape(L, c) THEN {"view " \o ToString(c) \o " of shape " \o ToString(o.shapes[c])}
                                ELSE IF o.type[c] # Type(L) THEN {"view of type " \o ToString(o.type[c])}
                                ELSE IF o.dumps[c] # Dump(L, b, c) THEN {"view " \o ToString(c) \o ": " \o ToString(o.dumps[c]) \o ", expected " \o ToString(Dump(L, b, c))}
                                ELSE {}) : c \in 1..Views(L) })
          \union (IF o.names # Names(Order(L)) THEN {"names " \o ToString(o.names)} ELSE {})
Obs(S, o) == IF Len(o) # Len(S.g) THEN {"grains"} ELSE UNION { { "grain " \o ToString(i) \o ": " \o m : m \in One(S, i, o[i]) } : i \in 1..Len(S.g) }
RECURSIVE Run(_, _, _)
Run(c, S, k) ==
  IF k > Len(c.evs) THEN {}
  ELSE LET e == c.evs[k]
           r == Do(S, e)
           bad == IF e.res # r[2] THEN {"result " \o e.res \o ", expected " \o r[2]} ELSE Obs(r[1], e.obs)
       IN IF bad # {} THEN { ToString(<<k, e.op, e.i, e.c, e.x, e.y>>) \o ": " \o m : m \in bad } ELSE Run(c, r[1], k + 1)
(* built: from the same arguments a numpy grain is the plain grain                                                 *)
Views1(c) ==
  LET S == [L |-> c.L, B |-> <<[v |-> c.v0, w |-> c.w0]>>, g |-> <<1>>]
  IN IF c.first # "ok" THEN {"construction: " \o c.first}
     ELSE LET bad == Obs(S, c.obs0) IN IF bad # {} THEN { "at first: " \o m : m \in bad } ELSE Run(c, S, 1)
CaseVerdict(c) == IF "plain" \in DOMAIN c THEN { ToString(<<x, c.numpy[x], c.plain[x]>>) : x \in { x \in {"meta", "len", "data"} : c.numpy[x] # c.plain[x] } }
                  ELSE Views1(c)
=============================================================================
