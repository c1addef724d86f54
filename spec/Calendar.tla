------------------------------ MODULE Calendar ------------------------------
EXTENDS Integers, Sequences
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
ValidDate(t) == /\ t[1] \in 1..9999 /\ t[2] \in 1..12 /\ t[3] \in 1..MonthLen(t[1], t[2])
                /\ t[4] \in 0..23 /\ t[5] \in 0..59 /\ t[6] \in 0..59
NextDay(y, m, d) == IF d < MonthLen(y, m) THEN <<y, m, d + 1>>
                    ELSE IF m < 12 THEN <<y, m + 1, 1>> ELSE <<y + 1, 1, 1>>
PrevDay(y, m, d) == IF d > 1 THEN <<y, m, d - 1>>
                    ELSE IF m > 1 THEN <<y, m - 1, MonthLen(y, m - 1)>> ELSE <<y - 1, 12, 31>>
(* local <<y, mo, d, h, mi, s>> at UTC offset off minutes, as UTC *)
ToUtc(t, off) ==
  LET mins == t[4] * 60 + t[5] - off
      day == IF mins < 0 THEN PrevDay(t[1], t[2], t[3])
             ELSE IF mins >= 1440 THEN NextDay(t[1], t[2], t[3]) ELSE <<t[1], t[2], t[3]>>
      m == mins % 1440
  IN day \o <<m \div 60, m % 60, t[6]>>
=============================================================================
