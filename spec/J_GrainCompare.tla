--------------------------- MODULE J_GrainCompare ---------------------------
(* C16: recorded comparisons.  pair: a, b, opts, match, failing, parts (<<name, truth, excluded>>..), lists              *)
(*   (<<name, failing places>>..), first (places of the first difference of the words xa, xb the report shows, if any),   *)
(*   shown (<<tag, i1, i2, j1, j2, values of a, values of b>>..); psnr: comps (<<max, x, y>>..), asked                      *)
(*   (<<<<comparison, thresholds in ten decibels or none>>.., answer>>..).                                                     *)
EXTENDS Judge, GrainCompare
(*   Also: head, the mark of the whole in the printed report, and told (<<name, mark, what the summary calls it>>..).          *)
Pick(x, i, j) == SubSeq(x, i + 1, j)
Pair(c) ==
  LET bad == Failing(c.a, c.b, c.opts)
      inc(n) == Excluded(c.a, c.b, c.opts, n)
      Mark(n) == IF inc(n) THEN "left out" ELSE IF n \in bad THEN "differs" ELSE "same"
      Told(n) == IF n \notin bad THEN {} ELSE IF inc(n) THEN {"ignored"} ELSE {"fails"}
  IN (IF c.match # Matches(c.a, c.b, c.opts) THEN {"matches: " \o ToString(c.match) \o " though " \o ToString(bad) \o " differ"} ELSE {})
     \union (IF { c.failing[i] : i \in DOMAIN c.failing } # bad \/ Len(c.failing) # Cardinality(bad)
             THEN {"named as failing " \o ToString(c.failing) \o " not " \o ToString(bad)} ELSE {})
     \union { ToString(<<"compared", c.parts[i][1]>>) : i \in { i \in DOMAIN c.parts : LET p == c.parts[i] IN p[1] \in Names(c.a, c.b) /\ p[2] = "missing" } }
     \union { ToString(<<"result for", c.parts[i][1], c.parts[i][2]>>) :
              i \in { i \in DOMAIN c.parts : LET p == c.parts[i] IN p[1] \in Names(c.a, c.b) /\ p[2] # "missing" /\ p[2] # ToString(p[1] \notin bad) } }
     \union { ToString(<<"excluded", c.parts[i][1], c.parts[i][3]>>) :
              i \in { i \in DOMAIN c.parts : LET p == c.parts[i] IN p[1] \in Names(c.a, c.b) /\ p[2] # "missing" /\ p[3] # inc(p[1]) } }
     \union (IF c.head # (IF c.match THEN "same" ELSE "differs") THEN {"reported as a whole: " \o c.head} ELSE {})
     \union { ToString(<<"reported", c.told[i]>>) : i \in { i \in DOMAIN c.told :
              LET t == c.told[i] IN t[1] \in Names(c.a, c.b) /\ (\/ t[2] # Mark(t[1]) \/ { t[3][k] : k \in DOMAIN t[3] } # Told(t[1])) } }
     \union (IF Names(c.a, c.b) \subseteq { c.told[i][1] : i \in DOMAIN c.told } THEN {} ELSE {"not all in the report"})
     \union { ToString(<<"entries of", c.lists[i][1], c.lists[i][2]>>) :
              i \in { i \in DOMAIN c.lists : LET l == c.lists[i] IN { l[2][k] + 1 : k \in DOMAIN l[2] } # BadItems(c.a.at[l[1]][2], c.b.at[l[1]][2]) } }
     \union (IF c.first # <<>> /\ c.first[1] + 1 # FirstDifference(c.xa, c.xb) THEN {"first difference said to be at " \o ToString(c.first)} ELSE {})
     \union { ToString(c.shown[i]) : i \in { i \in DOMAIN c.shown : LET s == c.shown[i] IN s[6] # Pick(c.xa, s[2], s[3]) \/ s[7] # Pick(c.xb, s[4], s[5])
                                                                                         \/ (s[1] = "equal") # (s[6] = s[7]) } }
Meets(c, cmp, i, k) == LET s == Against(c.comps[i][1], c.comps[i][2], c.comps[i][3], k)
                       IN CASE cmp = "<" -> s < 0 [] cmp = "<=" -> s <= 0 [] cmp = ">" -> s > 0 [] OTHER -> s >= 0
Exact(c, i, k) == k >= 0 /\ Against(c.comps[i][1], c.comps[i][2], c.comps[i][3], k) = 0
(* every option asked for has to be met *)
Psnr(c) == { ToString(c.asked[j]) : j \in { j \in DOMAIN c.asked :
             LET os == c.asked[j][1] IN
             /\ \A n \in DOMAIN os : \A i \in DOMAIN os[n][2] : i > Len(c.comps) \/ ~Exact(c, i, os[n][2][i])
             /\ c.asked[j][2] # ToString(\A n \in DOMAIN os : \A i \in DOMAIN os[n][2] :
                                          os[n][2][i] < 0 \/ i > Len(c.comps) \/ Meets(c, os[n][1], i, os[n][2][i])) } }
(* fa, fb: <<type, format, width or samples, height or channels, compressed>>.  What has no ratio of signal to noise       *)
(* meets no demand on it; the grains here are alike.  Left out, the data need not be compared.                                                    *)
NoPsnr(c) ==
  LET has == c.fa = c.fb /\ ~c.fa[5]
      named == \E i \in DOMAIN c.failing : c.failing[i] = "data"
  IN IF c.fa[1] # c.fb[1] THEN (IF c.match THEN {"grains of different types match"} ELSE {})
     ELSE (IF ~c.out /\ named = has THEN {ToString(<<"data fails", named, c.fa, c.fb>>)} ELSE {})
          \union (IF c.match # (c.fa = c.fb /\ (has \/ c.out)) THEN {ToString(<<"match", c.match, c.fa, c.fb, c.out>>)} ELSE {})
CaseVerdict(c) == CASE c.kind = "pair" -> Pair(c) [] c.kind = "psnr" -> Psnr(c) [] c.kind = "nopsnr" -> NoPsnr(c) [] OTHER -> {c.kind}
=============================================================================
