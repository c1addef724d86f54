------------------------------- MODULE J_Drawn ------------------------------
(* kind drawn: type, req (see Drawn), zero (the data is to be zeros), grains: each its attributes, gtype, class (of the     *)
(* right class), recent, len, zeros, shape (an event's type, topic and data are well-formed; its data is its JSON)          *)
(* kind template: type, format, t (the template's attributes), size (of the template's data), given (<<>> or <<bytes>>),   *)
(* kept (the template is as before), grains: each attrs, len, data (when given), floats (finite, none negative)            *)
(* kind attribute: type, a, values;  kind refused: res;  kind ratio: most, values <<n, d, lowest>>                         *)
EXTENDS Judge, Drawn
Vary == {"src_id", "flow_id", "origin_timestamp", "sync_timestamp", "creation_timestamp", "rate", "duration", "format", "samples", "channels", "sample_rate",
         "layout", "priming", "remainder", "is_key_frame", "temporal_offset", "unit_offsets", "topic", "event_type", "event_data"}
DrawnBad(c) ==
  UNION { LET g == c.grains[i]
              p == "grain " \o ToString(i) \o " "
          IN (IF g.gtype = c.type /\ g.class THEN {} ELSE {p \o "type"})
             \union { p \o a : a \in Asked(c.type, c.req, g) }
             \union (IF RightLength(c.type, g) THEN {} ELSE {p \o "data length " \o ToString(g.len)})
             \union (IF c.zero /\ ~g.zeros THEN {p \o "data"} ELSE {})
             \union (IF g.shape THEN {} ELSE {p \o "event"})
             \union (IF g.floats THEN {} ELSE {p \o "sample values"})
        : i \in 1..Len(c.grains) }
TemplateBad(c) ==
  (IF c.kept THEN {} ELSE {"template changed"})
  \union UNION { LET g == c.grains[i]
                     p == "grain " \o ToString(i) \o " "
                 IN { p \o a : a \in { a \in DOMAIN c.t : a \notin DOMAIN g.attrs \/ g.attrs[a] # c.t[a] } }
                    \union (IF c.given # <<>> THEN (IF g.data = c.given[1] THEN {} ELSE {p \o "data"})
                            ELSE IF g.len = c.size THEN {} ELSE {p \o "data length"})
                    \union (IF c.given # <<>> \/ g.floats THEN {} ELSE {p \o "sample values"})
               : i \in 1..Len(c.grains) }
CaseVerdict(c) ==
  CASE c.kind = "failed" -> {c.res}
    [] c.kind = "drawn" -> DrawnBad(c)
    [] c.kind = "template" -> TemplateBad(c)
    [] c.kind = "attribute" -> { "value " \o ToString(i) : i \in { i \in 1..Len(c.values) : ~InDomain(c.type, c.a, c.values[i]) } }
                               \union (IF c.a \notin Vary \/ Cardinality({ c.values[i] : i \in 1..Len(c.values) }) > 1 THEN {} ELSE {"always the same"})
    [] c.kind = "refused" -> IF c.res = "!ValueError" THEN {} ELSE {"not refused: " \o c.res}
    [] c.kind = "ratio" -> { "value " \o ToString(i) : i \in { i \in 1..Len(c.values) : ~(Ratio(c.values[i], c.most) /\ c.lowest[i]) } }
    [] OTHER -> {c.kind}
=============================================================================
