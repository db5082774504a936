------------------------------ MODULE PmlLaws ------------------------------
(***************************************************************************)
(* What the profiles guarantee, for every geometry up to the bounds.       *)
(***************************************************************************)
EXTENDS Pml
CONSTANTS MaxW, MaxN, Damps, Shifts
VARIABLES w0, w1, n, s0, al0, X
S == n + w0 + w1
F == Depth(w0, w1, S, X)
A == ProfA(s0, al0, F)
B == ProfB(s0, al0, F)
Init == /\ w0 \in 0..MaxW /\ w1 \in 0..MaxW /\ n \in 1..MaxN /\ s0 \in Damps /\ al0 \in Shifts
        /\ X = 0
Next == X < 2 * (S - 1) /\ X' = X + 1 /\ UNCHANGED <<w0, w1, n, s0, al0>>
Spec == Init /\ [][Next]_<<w0, w1, n, s0, al0, X>>
Inside == X >= 2 * w0 /\ X <= 2 * (S - 1 - w1)
ZeroOutsidePml == Inside <=> (F[1] = 0)
NothingInside == Inside => A = 0 /\ B = 0
Ranges == ~Inside => A \in 1..One /\ B \in (-One)..0 /\ (s0 > 0 => F[1] > 0)
\* a memory variable never outgrows what drives it: |b| <= 1 - a
Balance == ~Inside => A - B <= One + 2
Mirror == w0 = w1 => LET G == Depth(w0, w1, S, 2 * (S - 1) - X)
                     IN  ProfA(s0, al0, G) = A /\ ProfB(s0, al0, G) = B
\* deeper cells are damped at least as much
Deeper == X < 2 * (S - 1) =>
  LET G == Depth(w0, w1, S, X + 1)
      le(p, q) == p[1] * q[2] <= q[1] * p[2]
  IN  /\ (X < 2 * w0 => le(G, F)) /\ (X >= 2 * w0 /\ n > 1 => le(F, G))
      /\ le(F, G) => Sigma(s0, F) <= Sigma(s0, G) /\ Alpha(al0, F) >= Alpha(al0, G)
      /\ le(G, F) => Sigma(s0, G) <= Sigma(s0, F) /\ Alpha(al0, G) >= Alpha(al0, F)
\* the outermost cell of a PML as deep as it gets
Deepest == (w0 > 0 /\ X = 0) \/ (w1 > 0 /\ X = 2 * (S - 1)) => F = <<1, 1>>
\* the wavelet: even, one at its peak, between -0.45 and 1
RickerLaw == LET y == Ricker(X, 4 + n) IN y = Ricker(-X, 4 + n) /\ y <= One /\ y >= -14700 /\ (X = 0 => y = One)
=============================================================================
