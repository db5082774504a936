------------------------------ MODULE Extents ------------------------------
(***************************************************************************)
(* Which part of a model is simulated.                                     *)
(*                                                                         *)
(* e.n: shape of the given model; e.pad: two entries per dimension, -1     *)
(* standing for None (empty: no survey_pad); e.origin, e.shape: origin and *)
(* trimmed shape of the initial wavefields; e.src, e.rec: locations in the *)
(* given model, <<>> if ignored.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Points(T) == UNION { UNION { {T[ty][s][k] : k \in 1..Len(T[ty][s])} : s \in 1..Len(T[ty]) } : ty \in DOMAIN T } \ {<<>>}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
AllPoints(e) == Points(e.src) \cup Points(e.rec)
\* first cell and one past the last cell of the simulated region in dimension d
PadBegin(e, d, pts) ==
  IF e.pad[2 * d - 1] < 0 THEN 0
  ELSE LET x == Least({p[d] : p \in pts}) - e.pad[2 * d - 1] IN IF x < 0 THEN 0 ELSE x
PadEnd(e, d, pts) ==
  IF e.pad[2 * d] < 0 THEN e.n[d]
  ELSE LET x == Most({p[d] : p \in pts}) + e.pad[2 * d] + 1 IN IF x > e.n[d] THEN e.n[d] ELSE x
\* pml: two widths per dimension
Begin(e, d, pts) == IF e.origin # <<>> THEN e.origin[d]
                    ELSE IF e.pad = <<>> \/ pts = {} THEN 0 ELSE PadBegin(e, d, pts)
End(e, d, pts, pml) == IF e.origin # <<>> THEN e.origin[d] + e.shape[d] - pml[2 * d - 1] - pml[2 * d]
                       ELSE IF e.pad = <<>> \/ pts = {} THEN e.n[d] ELSE PadEnd(e, d, pts)

RECURSIVE EFlat(_, _, _, _)
EFlat(x, n, d, acc) == IF d > Len(n) THEN acc ELSE EFlat(x, n, d + 1, acc * n[d] + x[d])
RECURSIVE EProd(_, _)
EProd(s, k) == IF k > Len(s) THEN 1 ELSE s[k] * EProd(s, k + 1)
\* The case c describes the simulated region; e what was given.
EmbedBad(c, e, R(_)) ==
  LET nd == Len(e.n)
      pts == AllPoints(e)
      b == [d \in 1..nd |-> Begin(e, d, pts)]
      z == [d \in 1..nd |-> End(e, d, pts, c.pml)]
      co(j) == [d \in 1..nd |-> (((j - 1) \div EProd(c.n, d + 1)) % c.n[d]) + b[d]]
      sh(T, U) == \A ty \in DOMAIN T : \A s \in 1..Len(T[ty]) : \A k \in 1..Len(T[ty][s]) :
                    LET x == T[ty][s][k] y == U[ty][s][k]
                    IN  IF x = <<>> THEN y = <<>> ELSE y # <<>> /\ \A d \in 1..nd : x[d] + b[d] = y[d]
  IN  IF [d \in 1..nd |-> z[d] - b[d]] # c.n THEN <<"generator", "region", b, z, c.n>>
      ELSE IF ~(sh(c.src, e.src) /\ sh(c.rec, e.rec)) THEN <<"generator", "locations">>
      ELSE IF \E m \in DOMAIN c.model : \E s \in 1..Len(c.model[m]) : \E j \in 1..Len(c.model[m][s]) :
                R(c.model[m][s][j]) # e.model[m][s][1 + EFlat(co(j), e.n, 1, 0)]
      THEN <<"generator", "model">>
      ELSE <<>>
=============================================================================
