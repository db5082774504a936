----------------------------- MODULE Resample -----------------------------
(***************************************************************************)
(* The internal time step (CFL) and the low-pass resampling of source and  *)
(* receiver time series, in integer and fixed-point arithmetic (1 = 2^15). *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
One == 32768
Abs(x) == IF x < 0 THEN -x ELSE x
Rnd(a, b) == (a + b \div 2) \div b             \* nearest integer to a/b, b > 0
Max2(a, b) == IF a > b THEN a ELSE b

------------------------------------------------------------------ (* CFL *)
\* dt = a/den, spacings dx[i] (all dividing 12), largest speed v:
\* |dt|/r <= 3/5 / (sqrt(sum 1/dx^2) v)
RECURSIVE SumSq(_, _)
SumSq(dx, i) == IF i = 0 THEN 0 ELSE (12 \div dx[i]) * (12 \div dx[i]) + SumSq(dx, i - 1)
Need(c) == 25 * (c.a * c.v) * (c.a * c.v) * SumSq(c.dx, Len(c.dx))
Have(c, r) == 9 * 144 * c.den * c.den * r * r
\* equality may be rounded either way
StepRatioOk(c, r) == /\ r >= 1 /\ Need(c) <= Have(c, r)
                     /\ \/ r = 1 \/ Need(c) >= Have(c, r - 1)

------------------------------------------------- (* fixed-point cosine *)
\* cos(2 pi k / m) by Taylor series in the first octant
CosOct(x) == LET x2 == Rnd(x * x, One)  x4 == Rnd(x2 * x2, One)  x6 == Rnd(x4 * x2, One)
             IN  One - Rnd(x2, 2) + Rnd(x4, 24) - Rnd(x6, 720)
SinOct(x) == LET x2 == Rnd(x * x, One)  x3 == Rnd(x * x2, One)  x5 == Rnd(x3 * x2, One)  x7 == Rnd(x5 * x2, One)
             IN  x - Rnd(x3, 6) + Rnd(x5, 120) - Rnd(x7, 5040)
Arc(k, m) == Rnd(205887 * k, m)                 \* 2 pi k/m for 8k <= m
CosQ(k, m) == IF 8 * k <= m THEN CosOct(Arc(k, m))               \* 4k <= m
              ELSE SinOct(Rnd(205887 * (m - 4 * k), 4 * m))
CosH(k, m) == IF 4 * k <= m THEN CosQ(k, m)                      \* 2k <= m
              ELSE -(IF 8 * (m - 2 * k) <= 2 * m THEN CosOct(Rnd(205887 * (m - 2 * k), 2 * m))
                     ELSE SinOct(Rnd(205887 * (4 * k - m), 4 * m)))
Cos(k0, m) == LET k == k0 % m IN IF 2 * k <= m THEN CosH(k, m) ELSE CosH(m - k, m)

---------------------------------------------------------- (* resampling *)
\* A series of n coarse samples padded to N; bins 0..N \div 2 of its spectrum
\* are kept with weight W: the top bins tapered by a half period of a cosine,
\* or, without a taper, the top bin dropped (if n is odd this is not the
\* Nyquist frequency and either choice is accepted: "top").
Bins(N) == N \div 2 + 1
TaperLen(c, N) == (c.ftn * Bins(N)) \div c.ftd
W(c, N, top, k) ==
  LET nt == TaperLen(c, N)  i == k - (Bins(N) - nt) + 1
  IN  IF nt > 0 THEN (IF i >= 1 THEN Rnd(Cos(i, 2 * nt) + One, 2) ELSE One)
      ELSE IF Bins(N) > 1 /\ k = Bins(N) - 1 THEN top ELSE One
Mult(k) == IF k = 0 THEN 1 ELSE 2
PadLen(c, n) == (c.tpn * n) \div c.tpd
RECURSIVE SumOver(_, _, _)
SumOver(f, lo, hi) == IF lo > hi THEN 0 ELSE f[lo] + SumOver(f, lo + 1, hi)
\* interpolation kernel: K[d], d the distance in fine samples
Kernel(c, N, r, top) ==
  LET M == r * N
      cs == TLCEval([j \in 0..(M - 1) |-> Cos(j, M)])
      w == TLCEval([k \in 0..(Bins(N) - 1) |-> Mult(k) * W(c, N, top, k)])
      term(d, k) == IF w[k] = One THEN cs[(k * d) % M] ELSE IF w[k] = 2 * One THEN 2 * cs[(k * d) % M]
                    ELSE 2 * Rnd((w[k] \div 2) * cs[(k * d) % M], One)
  IN  TLCEval([d \in 0..(M - 1) |-> Rnd(SumOver([k \in 0..(Bins(N) - 1) |-> term(d, k)], 0, Bins(N) - 1), N)])
Hann(s, len) == IF len = 1 THEN One ELSE Rnd(One - Cos(s, len - 1), 2)
\* inputs in units of 2^-11 (at most 1), outputs in units of 2^-14
Up(c, x, r, top) ==
  LET n == Len(x)  N == n + PadLen(c, n)  M == r * N
      K == Kernel(c, N, r, top)
      raw(s) == Rnd(SumOver([t \in 0..(n - 1) |-> x[t + 1] * K[(s - r * t) % M]], 0, n - 1), 4096)
  IN  IF r = 1 THEN [s \in 1..n |-> 8 * x[s]]
      ELSE [s \in 1..(r * n) |-> IF c.hann THEN Rnd(Rnd(raw(s - 1), 2) * Hann(s - 1, r * n), One \div 2) ELSE raw(s - 1)]
\* x has r*n samples; the result is delayed by c.sh of them
Down(c, x, r, top) ==
  LET n == Len(x) \div r  N == n + PadLen(c, n)  M == r * N
      K == Kernel(c, N, r, top)
      y == TLCEval([t \in 1..(r * n) |-> IF c.hann THEN Rnd(x[t] * Hann(t - 1, r * n), One) ELSE x[t]])
      raw(s) == Rnd(SumOver([t \in 0..(r * n - 1) |-> y[t + 1] * K[(r * s - t - c.sh) % M]], 0, r * n - 1), 4096 * r)
  IN  IF r = 1 /\ c.sh = 0 THEN [s \in 1..n |-> 8 * x[s]] ELSE [s \in 1..n |-> raw(s - 1)]
TopChoices(c, n) == LET N == n + PadLen(c, n)
                    IN  IF TaperLen(c, N) = 0 /\ N % 2 = 1 /\ N > 1 THEN {0, One} ELSE {0}
Worst(a, b) == IF Len(a) # Len(b) THEN 1000000
               ELSE LET d == {Abs(a[i] - b[i]) : i \in 1..Len(a)} \cup {0} IN CHOOSE m \in d : \A e \in d : e <= m
MinOf(S) == CHOOSE m \in S : \A e \in S : m <= e
UpError(c, x, y, r) == MinOf({Worst(y, Up(c, x, r, top)) : top \in TopChoices(c, Len(x))})
DownError(c, x, y, r) == MinOf({Worst(y, Down(c, x, r, top)) : top \in TopChoices(c, Len(x) \div r)})
=============================================================================
