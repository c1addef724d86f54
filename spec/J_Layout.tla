------------------------------ MODULE J_Layout ------------------------------
(* C13.  case kinds: "video": f, w, h, cs, alloc, len, exp; "audio": f, channels, samples, alloc, len, exp, size;    *)
(* "vformat"/"aformat": f and what the predicates say; "planar": chroma, depth, f;                                   *)
(* "described"/"changed": seen, descriptions of a picture/of audio and the length expected then; "stated": said, data, exp *)
EXTENDS Judge, Formats
Is(n, a, b) == IF a = b THEN {} ELSE {n \o " " \o ToString(a) \o ", expected " \o ToString(b)}
VideoCase(c) ==
  (IF Describes(c.f, c.w, c.h, c.cs) THEN {} ELSE {"components " \o ToString(c.cs)})
  \union Is("allocated", c.alloc, Total(c.cs)) \union Is("length", c.len, Total(c.cs)) \union Is("expected length", c.exp, Total(c.cs))
AudioCase(c) ==
  LET n == AudioBytes(Audio[c.f], c.channels, c.samples)
  IN Is("allocated", c.alloc, n) \union Is("length", c.len, n) \union Is("expected length", c.exp, n) \union Is("size", c.size, n)
VFormat(c) ==
  LET F == Video[c.f]
      p == F.kind = "planar"
  IN Is("packed", c.packed, ~p) \union Is("planar", c.planar, p) \union Is("compressed", c.compressed, FALSE)
     \union Is("planar rgb", c.rgb, p /\ F.ch = "RGB") \union Is("alpha", c.alpha, F.ch = "A")
     \union (IF p THEN Is("h shift", c.hs, HS(F)) \union Is("v shift", c.vs, VS(F)) \union Is("bytes per value", c.bpv, F.bpv) ELSE {})
     \union Is("active bits", c.bits, F.bits)
AFormat(c) ==
  LET A == Audio[c.f]
  IN Is("planes", c.planes, A.arr = "planes") \union Is("pairs", c.pairs, A.arr = "pairs") \union Is("interleaved", c.interleaved, A.arr = "interleaved")
     \union Is("int", c.int, A.type = "int") \union Is("float", c.float, A.type = "float") \union Is("double", c.double, A.type = "double")
     \union Is("sample bytes", c.bytes, A.bytes) \union Is("compressed", c.compressed, FALSE)
     \union Is("depth", c.depth, IF c.f \in {"S24_PLANES", "S24_PAIRS", "S24_INTERLEAVED"} THEN 24 ELSE 8 * A.bytes)
Furthest(cs) == IF cs = <<>> THEN 0 ELSE LET ends == { cs[i].offset + cs[i].length : i \in DOMAIN cs } IN CHOOSE x \in ends : \A y \in ends : y <= x
Seen(c, Want(_)) == UNION { Is("expected length " \o ToString(i), c.seen[i].exp, Want(c.seen[i])) : i \in DOMAIN c.seen }
Stated(c) == Is("expected length", c.exp, IF c.said = <<>> THEN c.data ELSE c.said[1])
CaseVerdict(c) == CASE c.kind = "video" -> VideoCase(c) [] c.kind = "audio" -> AudioCase(c) [] c.kind = "vformat" -> VFormat(c) [] c.kind = "aformat" -> AFormat(c)
                    [] c.kind = "compressed" -> Is("compressed", c.compressed, TRUE) \union Is("planar", c.planar, FALSE)
                    [] c.kind = "planarformat" -> (IF Video[c.f].kind = "planar" /\ Video[c.f].ch = c.ch /\ Video[c.f].bits = c.bits THEN {} ELSE {"planar format"})
                    [] c.kind = "described" -> Seen(c, LAMBDA x: Furthest(x.cs))
                    [] c.kind = "changed" -> Seen(c, LAMBDA x: AudioBytes(Audio[x.f], x.channels, x.samples))
                    [] c.kind = "stated" -> Stated(c)
                    [] OTHER -> {c.kind}
=============================================================================
