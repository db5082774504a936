----------------------------- MODULE HicksLaws -----------------------------
(***************************************************************************)
(* What the specified weights guarantee, for every half-width and fraction:*)
(* mirror symmetry, a partition close to one (constants are interpolated), *)
(* antisymmetric dipoles, and folding onto a surface that cancels the      *)
(* image of every point (the interpolated field is zero on the surface).   *)
(***************************************************************************)
EXTENDS Hicks
CONSTANT Den
VARIABLES hw, f, depth
Init == hw \in 1..10 /\ f = -1 /\ depth = 0
AllTables == [h \in 1..10 |-> Table(h, Den)]
K == AllTables[hw]
None == [lo |-> FALSE, hi |-> FALSE, lo2 |-> 0, hi2 |-> 0]
Total(l) == SetSum(l, DOMAIN l)
Symmetric == f >= 0 => \A x \in -11..11 : Abs(Kernel1(hw, TRUE, x * Den - f, Den) - Kernel1(hw, TRUE, f - x * Den, Den)) <= 2
Antisymmetric == f >= 0 => \A x \in -11..11 : Abs(Kernel1(hw, FALSE, x * Den - f, Den) + Kernel1(hw, FALSE, f - x * Den, Den)) <= 2
Partition == f >= 0 /\ hw >= 4 => Abs(Total(Line(K, hw, TRUE, f, Den, None, {}, {})) - 16384) <= 100
DipoleFlat == f >= 0 /\ hw >= 4 => Abs(Total(Line(K, hw, FALSE, f, Den, None, {}, {}))) <= 16384 \div 8
\* a surface below the point: weights there are those of the point minus those of its image
Surface == f >= 0 => \A lo2 \in {0, -1} :
  LET fs == [lo |-> TRUE, hi |-> FALSE, lo2 |-> lo2, hi2 |-> 0]
      l == Line(K, hw, TRUE, depth * Den + f, Den, fs, {}, {})
      a == Line(K, hw, TRUE, depth * Den + f, Den, None, {}, {})
      b == Line(K, hw, TRUE, lo2 * Den - depth * Den - f, Den, None, {}, {})
  IN  f # 0 => \A x \in 0..14 : Abs(At(l, x) - (IF 2 * x < lo2 THEN 0 ELSE At(a, x) - At(b, x))) <= 1
Next == f = -1 /\ f' \in 0..(Den - 1) /\ depth' \in 0..3 /\ UNCHANGED hw
Spec == Init /\ [][Next]_<<hw, f, depth>>
=============================================================================
