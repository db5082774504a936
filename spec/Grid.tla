-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* Padded computational grids, their CPML profiles and finite differences. *)
(*                                                                         *)
(* A case record gives nd (dimensions), ns (shots), n (interior cells per  *)
(* dimension), pml (two widths per dimension), acc (2, 4, 6, 8), stag      *)
(* (staggered grid or not), rdx (1/spacing per dimension), dt and the      *)
(* values A, B, AH, BH a CPML profile takes at each padded coordinate if   *)
(* that coordinate is inside the PML (integer and half-integer points).    *)
(*                                                                         *)
(* Fields are flat sequences over shot x padded coordinates (row major).   *)
(***************************************************************************)
EXTENDS Ring

H(c) == c.acc \div 2
FdLo(c) == H(c)
FdHi(c) == IF c.stag THEN H(c) - 1 ELSE H(c)
Lo(c, d) == FdLo(c) + c.pml[2 * d - 1]
Hi(c, d) == FdHi(c) + c.pml[2 * d]
Size(c, d) == Lo(c, d) + c.n[d] + Hi(c, d)

RECURSIVE ProdFrom(_, _)
ProdFrom(s, k) == IF k > Len(s) THEN 1 ELSE s[k] * ProdFrom(s, k + 1)

\* Coordinate k (0-based) of dimension d lies in the PML, for integer points
\* and for points shifted by half a cell.
InPml(c, d, k) == \/ c.pml[2 * d - 1] > 0 /\ k < Lo(c, d)
                  \/ c.pml[2 * d] > 0 /\ k > Size(c, d) - 1 - Hi(c, d)
InPmlH(c, d, k) == \/ c.pml[2 * d - 1] > 0 /\ k < Lo(c, d)
                   \/ c.pml[2 * d] > 0 /\ k >= Size(c, d) - 1 - Hi(c, d)

(* Central first derivative, coefficients of (f[+k] - f[-k]); second       *)
(* derivative, coefficient of f[0] then of (f[+k] + f[-k]); staggered      *)
(* first derivative, coefficients of (f[+k-1/2] - f[-k+1/2]).              *)
C1 == TLCEval(<< <<Rat(1, 2)>>,
                 <<Rat(2, 3), Rat(-1, 12)>>,
                 <<Rat(3, 4), Rat(-3, 20), Rat(1, 60)>>,
                 <<Rat(4, 5), Rat(-1, 5), Rat(4, 105), Rat(-1, 280)>> >>)
C2 == TLCEval(<< <<Rat(-2, 1), 1>>,
                 <<Rat(-5, 2), Rat(4, 3), Rat(-1, 12)>>,
                 <<Rat(-49, 18), Rat(3, 2), Rat(-3, 20), Rat(1, 90)>>,
                 <<Rat(-205, 72), Rat(8, 5), Rat(-1, 5), Rat(8, 315), Rat(-1, 560)>> >>)
CS == TLCEval(<< <<1>>,
                 <<Rat(9, 8), Rat(-1, 24)>>,
                 <<Rat(75, 64), Rat(-25, 384), Rat(3, 640)>>,
                 <<Rat(1225, 1024), Rat(-245, 3072), Rat(49, 5120), Rat(-5, 7168)>> >>)

\* b' along one dimension (plain residues), as the scalar propagator uses it
RECURSIVE Db(_, _, _, _, _)
Db(cs, rdx, b, k, j) ==
  IF j = 0 THEN 0
  ELSE (M2(M2(cs[j], rdx), (b[k + 1 + j] - b[k + 1 - j]) % P) + Db(cs, rdx, b, k, j - 1)) % P

Geo(c) ==
  LET nd == c.nd
      S == TLCEval([d \in 1..nd |-> Size(c, d)])
      cells == ProdFrom(S, 1)
      str == TLCEval([d \in 1..nd |-> ProdFrom(S, d + 1)])
      N == c.ns * cells
      Co(i) == TLCEval([d \in 1..nd |-> ((i - 1) \div str[d]) % S[d]])
      co == TLCEval([i \in 1..N |-> Co(i)])
      h == H(c)
      a == TLCEval([d \in 1..nd |-> TLCEval([k \in 1..S[d] |-> IF InPml(c, d, k - 1) THEN c.A[d][k] ELSE 0])])
      b == TLCEval([d \in 1..nd |-> TLCEval([k \in 1..S[d] |-> IF InPml(c, d, k - 1) THEN c.B[d][k] ELSE 0])])
      ah == TLCEval([d \in 1..nd |-> TLCEval([k \in 1..S[d] |-> IF InPmlH(c, d, k - 1) THEN c.AH[d][k] ELSE 0])])
      bh == TLCEval([d \in 1..nd |-> TLCEval([k \in 1..S[d] |-> IF InPmlH(c, d, k - 1) THEN c.BH[d][k] ELSE 0])])
  IN  [ nd |-> nd, ns |-> c.ns, S |-> S, str |-> str, N |-> N, cells |-> cells,
        co |-> co, h |-> h, hi |-> FdHi(c), rdx |-> c.rdx,
        sh |-> TLCEval([i \in 1..N |-> 1 + ((i - 1) \div cells)]),
        inn |-> TLCEval([i \in 1..N |-> \A d \in 1..nd :
                  co[i][d] >= h /\ co[i][d] < S[d] - FdHi(c)]),
        \* the last cell of a dimension is outside for half-cell-shifted points
        last |-> TLCEval([d \in 1..nd |-> S[d] - 1 - FdHi(c)]),
        a |-> a, b |-> b, ah |-> ah, bh |-> bh,
        db |-> IF c.stag THEN <<>>
               ELSE TLCEval([d \in 1..nd |-> TLCEval([k \in 1..S[d] |->
                      IF k - 1 >= h /\ k - 1 < S[d] - h
                      THEN Db(C1[h], c.rdx[d], b[d], k - 1, h) ELSE 0])]) ]

\* Active cells of a field shifted by half a cell in the dimensions of hf
Active(g, i, hf) == g.inn[i] /\ \A d \in hf : g.co[i][d] < g.last[d]

Field(g, hf, Op(_)) == TLCEval([i \in 1..g.N |-> IF Active(g, i, hf) THEN Op(i) ELSE Zero])
ZeroField(g) == TLCEval([i \in 1..g.N |-> Zero])

Taps(h, T(_)) ==
  IF h = 1 THEN T(1)
  ELSE IF h = 2 THEN Add(T(1), T(2))
  ELSE IF h = 3 THEN Add(Add(T(1), T(2)), T(3))
  ELSE Add(Add(T(1), T(2)), Add(T(3), T(4)))

\* central first and second derivatives along d at cell i
D1(g, f, i, d) ==
  LET s == g.str[d]
      T(k) == Scale(C1[g.h][k], Sub(f[i + k * s], f[i - k * s]))
  IN  Scale(g.rdx[d], Taps(g.h, T))
D2(g, f, i, d) ==
  LET s == g.str[d]
      T(k) == Scale(C2[g.h][k + 1], Add(f[i + k * s], f[i - k * s]))
  IN  Scale(M2(g.rdx[d], g.rdx[d]), Add(Scale(C2[g.h][1], f[i]), Taps(g.h, T)))
\* staggered: derivative at integer points of a field on half points, and back
Ds(g, f, i, d) ==
  LET s == g.str[d]
      T(k) == Scale(CS[g.h][k], Sub(f[i + (k - 1) * s], f[i - k * s]))
  IN  Scale(g.rdx[d], Taps(g.h, T))
Dh(g, f, i, d) ==
  LET s == g.str[d]
      T(k) == Scale(CS[g.h][k], Sub(f[i + k * s], f[i - (k - 1) * s]))
  IN  Scale(g.rdx[d], Taps(g.h, T))

(* User arrays.  A model is given on the interior cells, per shot, and is  *)
(* extended outwards by edge replication.  A wavefield is given on the     *)
(* interior and PML cells, per shot.                                       *)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
RECURSIVE FlatIdx(_, _, _, _)
FlatIdx(x, n, d, acc) == IF d > Len(n) THEN acc ELSE FlatIdx(x, n, d + 1, acc * n[d] + x[d])
ExtendModel(c, g, m) ==
  TLCEval([i \in 1..g.N |->
     LET x == [d \in 1..g.nd |-> Clamp(g.co[i][d] - Lo(c, d), 0, c.n[d] - 1)]
     IN  m[g.sh[i]][1 + FlatIdx(x, c.n, 1, 0)]])
ZeroExtend(c, g, m) ==     \* zero outside the interior instead
  TLCEval([i \in 1..g.N |->
     LET x == [d \in 1..g.nd |-> g.co[i][d] - Lo(c, d)]
     IN  IF \E d \in 1..g.nd : x[d] < 0 \/ x[d] >= c.n[d] THEN Zero
         ELSE m[g.sh[i]][1 + FlatIdx(x, c.n, 1, 0)]])
EmbedField(c, g, w, hf, Keep(_)) ==
  IF w = <<>> THEN ZeroField(g)
  ELSE LET tr == [d \in 1..g.nd |-> g.S[d] - g.h - g.hi]
       IN  Field(g, hf, LAMBDA i :
             IF ~Keep(i) THEN Zero
             ELSE LET x == [d \in 1..g.nd |-> g.co[i][d] - g.h]
                  IN  w[g.sh[i]][1 + FlatIdx(x, tr, 1, 0)])
\* flat index of a user location (0-based interior coordinates) of shot s
Loc(c, g, s, x) ==
  1 + (s - 1) * g.cells + FlatIdx([d \in 1..g.nd |-> x[d] + Lo(c, d)], g.S, 1, 0)

DimNames == <<"z", "y", "x">>
Dn(nd, d) == DimNames[3 - nd + d]
=============================================================================
