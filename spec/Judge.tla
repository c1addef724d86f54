------------------------------- MODULE Judge -------------------------------
(* Common frame of the judges: every recorded case is one state, its verdict the set of failing clauses.   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Verdict(_)          \* set of names of the clauses that fail on a case; {} accepts
VARIABLES jc, ji
Cases == ndJsonDeserialize(IOEnv.CASES)
NCases == Len(Cases)
JChunks == 64
JInit == jc = 0 /\ ji = 0
JNext == \/ jc = 0 /\ jc' \in 1..JChunks /\ ji' = 0
         \/ jc > 0 /\ ji = 0 /\ ji' \in {j \in 1..NCases : j % JChunks = jc - 1} /\ jc' = jc
JInv == ji = 0 \/ LET v == Verdict(Cases[ji])
                  IN v = {} \/ PrintT("FAIL " \o ToString(ji) \o " " \o ToString(v))
=============================================================================
