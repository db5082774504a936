-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* The ring in which the propagators are specified.  Numbers are residues  *)
(* modulo the prime P (products fit TLC's 32-bit integers); a real number  *)
(* n/d observed in the implementation is represented by n * d^-1 mod P.    *)
(*                                                                         *)
(* K = 1: plain residues.                                                  *)
(* K = 2: dual numbers a + b e, e^2 = 0: b is a directional derivative.    *)
(* K = 4: a + b e + c d + f e d: f is a second directional derivative.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANT K
P == 46337

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1
             ELSE LET h == Pow(b, e \div 2)
                      s == (h * h) % P
                  IN  IF e % 2 = 1 THEN (s * b) % P ELSE s
Inv(a) == Pow(a % P, P - 2)
Rat(n, d) == ((n % P) * Inv(d)) % P

Zero == IF K = 1 THEN 0 ELSE IF K = 2 THEN <<0, 0>> ELSE <<0, 0, 0, 0>>
Lift(x) == IF K = 1 THEN x ELSE IF K = 2 THEN <<x, 0>> ELSE <<x, 0, 0, 0>>
Re(x) == IF K = 1 THEN x ELSE x[1]
Add(x, y) ==
  IF K = 1 THEN (x + y) % P
  ELSE IF K = 2 THEN <<(x[1] + y[1]) % P, (x[2] + y[2]) % P>>
  ELSE <<(x[1] + y[1]) % P, (x[2] + y[2]) % P, (x[3] + y[3]) % P, (x[4] + y[4]) % P>>
Sub(x, y) ==
  IF K = 1 THEN (x - y) % P
  ELSE IF K = 2 THEN <<(x[1] - y[1]) % P, (x[2] - y[2]) % P>>
  ELSE <<(x[1] - y[1]) % P, (x[2] - y[2]) % P, (x[3] - y[3]) % P, (x[4] - y[4]) % P>>
Scale(c, x) ==
  IF K = 1 THEN (c * x) % P
  ELSE IF K = 2 THEN <<(c * x[1]) % P, (c * x[2]) % P>>
  ELSE <<(c * x[1]) % P, (c * x[2]) % P, (c * x[3]) % P, (c * x[4]) % P>>
M2(a, b) == (a * b) % P
Mul(x, y) ==
  IF K = 1 THEN (x * y) % P
  ELSE IF K = 2 THEN <<M2(x[1], y[1]), (M2(x[1], y[2]) + M2(x[2], y[1])) % P>>
  ELSE << M2(x[1], y[1]),
          (M2(x[1], y[2]) + M2(x[2], y[1])) % P,
          (M2(x[1], y[3]) + M2(x[3], y[1])) % P,
          (M2(x[1], y[4]) + M2(x[2], y[3]) + M2(x[3], y[2]) + M2(x[4], y[1])) % P >>
\* 1/x for x with an invertible real part: with x = r + n, n^3 = 0.
InvR(x) ==
  IF K = 1 THEN Inv(x)
  ELSE LET i == Inv(x[1])
           n == Sub(x, Lift(x[1]))
           q == M2(i, i)
       IN  Add(Sub(Lift(i), Scale(q, n)), Scale(M2(q, i), Mul(n, n)))
IsZero(x) == x = Zero
=============================================================================
