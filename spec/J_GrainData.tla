---------------------------- MODULE J_GrainData -----------------------------
(* C11: recorded histories.  case: ev (event grain), v0, s0 (initial data or source), nsrc, ident (data compares by  *)
(* identity only), evs: [op, i, a, sh, res, meq, obs].  obs: see below                                                *)
EXTENDS Judge, GrainData
GOk(S, c, i, o, k) ==
  LET v == Val(S, i)
      p == S.g[i].pend # 0
  IN (IF o.data # v THEN {"data " \o ToString(o.data) \o ", expected " \o ToString(v)} ELSE {})
     \union (IF o.has # (v # 0) THEN {"has_data"} ELSE {})
     \union (IF ~(IF v # 0 THEN o.length = o.blen ELSE IF p THEN o.length \in S.g[i].plen ELSE o.length = 0) THEN {"length"} ELSE {})
     \union (IF o.bytes # v THEN {"bytes"} ELSE {})
     \union (IF ~o.pair THEN {"not the pair of metadata and data"} ELSE {})
     \union (IF ~o.self THEN {"does not equal itself as a pair"} ELSE {})
     \union (IF ~o.type THEN {"type"} ELSE {})
     \union (IF o.attr # S.M[S.g[i].fc] \/ o.nested # S.M[S.g[i].lc] THEN {"metadata"} ELSE {})
Obs(S, c, o) ==
  UNION { { "grain " \o ToString(i) \o ": " \o b : b \in GOk(S, c, i, o.g[i], i) } : i \in 1..Len(S.g) }
  \union (IF Len(o.g) # Len(S.g) THEN {"grains"} ELSE {})
  \union (IF [t \in 1..Len(S.T) |-> S.T[t].st] # [t \in 1..Len(o.t) |-> o.t[t][1]] THEN {"tasks " \o ToString(o.t) \o ", expected " \o ToString(S.T)}
          ELSE { "task " \o ToString(t) \o " got " \o ToString(o.t[t][2]) \o ", expected " \o ToString(S.T[t].v) : t \in { t \in 1..Len(S.T) : S.T[t].st = "ret" /\ o.t[t][2] # S.T[t].v } })
  \union { "source " \o ToString(s) \o " awaited " \o ToString(o.n[s]) \o " times" : s \in { s \in 1..Len(S.src) : o.n[s] # -1 /\ o.n[s] # S.src[s].n } }
  \union (IF c.ident THEN {} ELSE { "equality " \o ToString(e) : e \in { e \in { o.eq[k] : k \in 1..Len(o.eq) } :
             e[3] # (IF Same(S, e[1], e[2]) THEN 1 ELSE 0) \/ e[4] # 1 - e[3] } })
RECURSIVE Run(_, _, _)
Run(c, S, k) ==
  IF k > Len(c.evs) THEN {}
  ELSE LET e == c.evs[k]
           sh == IF e.op = "deep" THEN <<FALSE, FALSE, FALSE>> ELSE <<e.sh[1], e.sh[2], e.sh[3]>>
           r == Do(S, e.op, e.i, e.a, sh)
           bad == (IF e.res # r[2] THEN {"result " \o e.res \o ", expected " \o r[2]} ELSE {})
                  \union (IF e.op = "deep" /\ (e.sh[1] \/ e.sh[2] \/ e.sh[3]) THEN {"deep copy shares"} ELSE {})
                  \union (IF ~e.meq THEN {"copied metadata differs"} ELSE {})
                  \union (IF e.res = "ok" /\ r[2] = "ok" THEN Obs(r[1], c, e.obs) ELSE {})
       IN IF bad # {} THEN { ToString(<<k, e.op, e.i, e.a>>) \o ": " \o b : b \in bad } ELSE Run(c, r[1], k + 1)
CaseVerdict(c) == IF c.first # "ok" THEN {"construction: " \o c.first} ELSE Run(c, Fresh(c.ev, c.v0, c.s0, c.nsrc), 1)
=============================================================================
