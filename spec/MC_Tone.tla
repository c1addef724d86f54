------------------------------- MODULE MC_Tone ------------------------------
(* Grains cut from a loop of Loop samples which starts over at its end, against the signal that never starts over.      *)
EXTENDS Integers, Sequences, TLC
CONSTANTS R, Shorter
VARIABLES rate, f, samples, k
vars == <<rate, f, samples, k>>
Loop == IF f = 0 THEN 1 ELSE IF rate % f = 0 \/ Shorter THEN rate \div f ELSE rate
Init == rate \in 1..R /\ f \in 0..R /\ samples \in 1..R /\ k = -2 /\ (Shorter => f <= rate)
MNext == k < 5 /\ k' = k + 1 /\ UNCHANGED <<rate, f, samples>>
Signal(n) == (n * f) % rate
Cut(i) == (((k * samples) % Loop) + i) % Loop
Continuous == \A i \in 0..(samples - 1) : Signal(Cut(i)) = Signal(k * samples + i)
=============================================================================
