------------------------------- MODULE MC_Psnr -------------------------------
(* The logarithm: of powers of two exact, of products the sum, rising; and the ratio follows the noise. *)
EXTENDS Psnr
CONSTANT Most
VARIABLES n, k
MInit == n \in 1..Most /\ k = 0
MNext == k < 40 /\ k' = k + 1 /\ n' = n
L(x) == Log2(NOf(x))
Near(a, b) == a - b \in -4..4
Exact == Log2(NPow(NOf(2), k)) = k * 1048576 /\ Near(Log2(NMul(NPow(NOf(2), k), NOf(n))), k * 1048576 + L(n))
Rising == L(n) < L(n + 1) /\ (n >= Pow2(k % 12)) = (L(n) >= (k % 12) * 1048576)
Sums == Near(Log2(NMul(NOf(n), NOf(k + 1))), L(n) + L(k + 1)) /\ Near(Log2(NMul(NOf(n), NOf(n))), 2 * L(n))
(* more noise, a smaller ratio; noise spread over more samples, a greater one; of one level in every sample, the peak's own *)
Follows == /\ Octaves(ZOf(255), ZOf(n), k + 1) > Octaves(ZOf(255), ZOf(n + 1), k + 1)
           /\ Octaves(ZOf(255), ZOf(n), k + 2) > Octaves(ZOf(255), ZOf(n), k + 1)
           /\ Near(Octaves(ZOf(n), ZOf(k + 1), k + 1), 2 * L(n))
           /\ Near(Octaves(ZOf(n), ZOf((k + 1) * n), k + 1), L(n))
(* ten times the peak: 20 decibels *)
Tens == IsRatio(20000000, Octaves(ZOf(10), ZOf(k + 1), k + 1), 20) /\ ~IsRatio(20000040, Octaves(ZOf(10), ZOf(k + 1), k + 1), 20)
Laws == Exact /\ Rising /\ Sums /\ Follows /\ Tens
==============================================================================
