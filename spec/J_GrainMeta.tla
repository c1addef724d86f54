---------------------------- MODULE J_GrainMeta -----------------------------
(* C09: recorded histories of grains.  case: t, how, given (<<attr, value>>..), extra (leaves given besides), now, first *)
(*   (the observation after construction), recent, evs: [op, attr, val, res, obs]; an observation is [attrs, meta].   *)
EXTENDS Judge, GrainMeta, FiniteSets
AsFun(s) == [a \in { s[i][1] : i \in DOMAIN s } |-> s[CHOOSE i \in DOMAIN s : s[i][1] = a][2]]
(* lists kept empty, or not kept, are the same *)
Leafs(o) == { o.meta[i] : i \in DOMAIN o.meta }
OwnPaths(t) == { Path(t, a) : a \in Attrs(t) }
OfState(t, S) == { l \in S : (\E p \in OwnPaths(t) : l[1] = p \/ l[3] = p) /\ l[2][1] # "empty" }
Pure(S) == { <<l[1], l[2]>> : l \in S }
Rest(t, S) == { l \in S : \A p \in OwnPaths(t) : l[1] # p /\ l[3] # p }
Shows(t, A, o) == { ToString(<<"attribute", o.attrs[i][1], "reads", o.attrs[i][2], "not", A[BaseOf(t, o.attrs[i][1])]>>) :
                    i \in { i \in DOMAIN o.attrs : o.attrs[i][2] # A[BaseOf(t, o.attrs[i][1])] } }
                  \union (LET K == Pure(OfState(t, Leafs(o))) M == Meta(t, A) IN
                          { ToString(<<"metadata has", l>>) : l \in K \ M } \union { ToString(<<"metadata lacks", l>>) : l \in M \ K })
RECURSIVE Run(_, _, _, _)
Run(c, A, R, i) ==
  IF i > Len(c.evs) THEN {}
  ELSE LET ev == c.evs[i]
           B == IF ev.op \in {"set", "meta"} THEN Assign(c.t, A, ev.attr, ev.val) ELSE A
           bad == IF ev.res # "ok" THEN {ev.res}
                  ELSE Shows(c.t, B, ev.obs) \union (IF Rest(c.t, Leafs(ev.obs)) # R THEN {"other metadata changed"} ELSE {})
       IN IF bad # {} THEN { ToString(<<i, ev.op, ev.attr>>) \o ": " \o b : b \in bad } ELSE Run(c, B, R, i + 1)
(* listed: the attributes said to make up a grain of the type, by the names of old or of the constructors' parameters *)
Listed(c) ==
  LET want == Attrs(c.t) \ {"extension", "source_aspect_ratio", "pixel_aspect_ratio"}
      Name(a) == CASE a = "source_id" -> IF c.new THEN "src_id" ELSE a
                   [] a \in {"cog_frame_format", "cog_audio_format"} -> IF c.new THEN a ELSE "format"
                   [] a = "cog_frame_layout" -> IF c.new THEN a ELSE "layout"
                   [] OTHER -> a
  IN IF { c.listed[i] : i \in DOMAIN c.listed } = { Name(a) : a \in want } /\ Len(c.listed) = Cardinality(want) THEN {} ELSE {ToString(c.listed)}
History(c) ==
  IF c.res # "ok" THEN {"construction: " \o c.res}
  ELSE LET A == Built(c.t, c.how, AsFun(c.given), c.now)
           R == Rest(c.t, Leafs(c.first))
           bad == Shows(c.t, A, c.first) \union (IF ~c.recent THEN {"creation time is not now"} ELSE {})
                  \union (IF \E i \in DOMAIN c.extra : c.extra[i] \notin Pure(R) THEN {"given metadata lost"} ELSE {})
       IN IF bad # {} THEN { "construction: " \o b : b \in bad } ELSE Run(c, A, R, 1)
CaseVerdict(c) == IF "listed" \in DOMAIN c THEN Listed(c) ELSE History(c)
=============================================================================
