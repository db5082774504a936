-------------------------------- MODULE Pml --------------------------------
(***************************************************************************)
(* CPML profiles and the Ricker wavelet in fixed point (1 = 2^15).         *)
(*                                                                         *)
(* Coordinates are doubled, so that X = 2x is the cell x and X = 2x + 1    *)
(* the half point after it; S cells (interior and PML), of which the first *)
(* w0 and the last w1 are PML.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
One == 32768
Abs(x) == IF x < 0 THEN -x ELSE x
Rnd(a, b) == (a + b \div 2) \div b             \* nearest integer to a/b, b > 0

\* exp(-x): x = n ln 2 + r
Ln2 == 22713
RECURSIVE Taylor(_, _)
Taylor(r, k) == IF k > 9 THEN One ELSE LET t == TLCEval(Taylor(r, k + 1)) IN One - Rnd(Rnd(r * t, One), k)
RECURSIVE Halve(_, _)
Halve(x, n) == IF n = 0 THEN x ELSE Halve(Rnd(x, 2), n - 1)
ExpNeg(x) == LET n == x \div Ln2 IN IF n > 20 THEN 0 ELSE Halve(Taylor(x - n * Ln2, 1), n)

\* depth into the PML at X: a fraction <<p, q>>, 0 <= p <= q
Depth(w0, w1, S, X) ==
  LET p0 == IF w0 = 0 THEN 0 ELSE 2 * w0 - X
      p1 == IF w1 = 0 THEN 0 ELSE X - 2 * (S - 1 - w1)
      cut(p, w) == IF p <= 0 THEN <<0, 1>> ELSE IF p >= 2 * w THEN <<1, 1>> ELSE <<p, 2 * w>>
      a == cut(p0, w0)
      b == cut(p1, w1)
  IN  IF a[1] * b[2] >= b[1] * a[2] THEN a ELSE b
\* damping and frequency shift over one time step; s0, al0: their largest values
Sigma(s0, f) == Rnd(Rnd(s0 * f[1], f[2]) * f[1], f[2])
Alpha(al0, f) == Rnd(al0 * (f[2] - f[1]), f[2])
ProfA(s0, al0, f) == IF f[1] = 0 THEN 0 ELSE ExpNeg(Sigma(s0, f) + Alpha(al0, f))
ProfB(s0, al0, f) ==
  LET s == Sigma(s0, f)
      sa == s + Alpha(al0, f)
  IN  IF f[1] = 0 \/ s = 0 THEN 0
      ELSE -Rnd(Rnd(s * 4096, sa) * (One - ExpNeg(sa)), 4096)
\* 3 v |dt| ln(1000) / (2 L), with v |dt| = vdt / 1000
Sigma0(vdt, L) == Rnd(339529 * vdt, 1000 * L)
\* pi f |dt|, with f |dt| = fdt / 10000
Alpha0(fdt) == Rnd(102944 * fdt, 10000)

--------------------------------------------------------------------------
(* derivatives of integer fields: numerators over a common denominator *)
RegN == << <<1>>, <<8, -1>>, <<45, -9, 1>>, <<672, -168, 32, -3>> >>
RegD == << 2, 12, 60, 840 >>
StgN == << <<1>>, <<27, -1>>, <<2250, -125, 9>>, <<128625, -8575, 1029, -75>> >>
StgD == << 1, 24, 1920, 107520 >>
RECURSIVE SumTo(_, _)
SumTo(F(_), k) == IF k = 0 THEN 0 ELSE F(k) + SumTo(F, k - 1)
\* at(x): the field along a line (zero outside); in units of 2^-11
D1At(h, at(_), x) ==
  LET T(k) == RegN[h][k] * (at(x + k) - at(x - k)) IN Rnd(SumTo(T, h) * 2048, RegD[h])
\* at the half point after x of a field on whole points, and back
DhAt(h, at(_), x) ==
  LET T(k) == StgN[h][k] * (at(x + k) - at(x - k + 1)) IN Rnd(SumTo(T, h) * 2048, StgD[h])
DsAt(h, at(_), x) ==
  LET T(k) == StgN[h][k] * (at(x + k - 1) - at(x - k)) IN Rnd(SumTo(T, h) * 2048, StgD[h])

--------------------------------------------------------------------------
(* (1 - 2 q) exp(-q), q = (pi f t)^2 with f t = k / m *)
RickerQ(k, m) == Rnd(Rnd(323405 * Abs(k), m) * Abs(k), m)
Ricker(k, m) ==
  IF Abs(k) >= 2 * m THEN 0                      \* below 1e-13
  ELSE LET q == RickerQ(k, m)
           e == ExpNeg(q)
       IN  IF e < 4096 THEN Rnd(Rnd(One - 2 * q, 16) * e, 2048)
           ELSE Rnd(Rnd(One - 2 * q, 4) * e, 8192)
=============================================================================
