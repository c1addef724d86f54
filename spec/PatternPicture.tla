--------------------------- MODULE PatternPicture ---------------------------
(* C19.  The pictures of the video pattern generators: every sample of every component of planar YUV formats.           *)
EXTENDS Integers, Sequences, Formats
Scale(b) == CASE b = 8 -> 1 [] b = 10 -> 4 [] b = 12 -> 16 [] b = 16 -> 256
Dark(F) == 16 * Scale(F.bits)
Bright(F) == 219 * Scale(F.bits)                                          \* from black to white
Neutral(F) == 128 * Scale(F.bits)
Eighth(x, w) == (x * 8) \div w                                            \* which of eight equal parts of a line
Steps(F, i, x, w) == IF i = 1 THEN Dark(F) + ((Eighth(x, w) * Bright(F)) \div 8) ELSE Neutral(F)
(* 100 per cent bars in 16 bits: luma (scaled by the intensity), and the two colour differences *)
Table == << <<65535, 32768, 32768>>, <<57855, 0, 37888>>, <<45568, 44031, 0>>, <<38399, 11263, 5631>>,
            <<27135, 54272, 59904>>, <<19456, 21504, 65535>>, <<7679, 65535, 27647>>, <<0, 32768, 32768>> >>
Level(F, bar, i) == Table[bar + 1][i] \div (65536 \div (256 * Scale(F.bits)))
(* the intensity is num/den; when it is no binary fraction a product that is whole may come out one less *)
Bars(F, i, x, cw, num, den, exact) ==
  LET v == Level(F, Eighth(x, cw), i)
      p == (v * num) \div den
  IN IF i # 1 THEN {v} ELSE IF exact \/ (v * num) % den # 0 \/ p = 0 THEN {p} ELSE {p, p - 1}

(* the moving bar: frame number n, num/den lines per frame, bh lines high in a picture of h lines *)
Trunc(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
Top(n, num, den, h) == Trunc(n * num, den) % h
Cut(F, i, y) == IF i > 1 /\ VS(F) = 1 THEN y \div 2 ELSE y
Barred(F, i, y, h, top, bh) ==
  LET ch == CH(F, h, i) IN ((y - Cut(F, i, top)) % ch) < Cut(F, i, bh)
Paint(F, i) == IF i = 1 THEN Dark(F) ELSE Neutral(F)
=============================================================================
