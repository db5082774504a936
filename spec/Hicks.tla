------------------------------- MODULE Hicks -------------------------------
(***************************************************************************)
(* Kaiser-windowed sinc interpolation of points onto grid nodes (Hicks     *)
(* 2002), in fixed point, with free surfaces folded back antisymmetrically.*)
(* Locations are num/den cells; weights are in units of 2^-14.             *)
(***************************************************************************)
EXTENDS Resample
\* Kaiser parameters of Hicks' table for half-widths 1..10, times 100
Beta == <<0, 184, 304, 414, 526, 640, 751, 856, 956, 1064>>
\* (beta/2)^2 (1 - x^2/hw^2), x = p/den, in 2^-13
QQ(hw) == LET b == Beta[hw] * Beta[hw] IN (b \div 40000) * 8192 + Rnd((b % 40000) * 8192, 40000)
Q(hw, p, den) == LET m == den * den * hw * hw IN IF p * p >= m THEN 0 ELSE LET g == m - p * p IN
                 IF g <= 9000 /\ m <= 9000 THEN Rnd(QQ(hw) * g, m) ELSE Rnd(QQ(hw) * Rnd(g * 8000, m), 8000)
Times(t, q) == ((t \div 1024) * q) \div 8 + Rnd((t % 1024) * q, 8192)
T0(hw) == IF hw <= 5 THEN 16384 ELSE IF hw <= 8 THEN 512 ELSE 256
RECURSIVE I0Sum(_, _, _)
I0Sum(t, q, k) == IF t = 0 \/ k > 24 THEN t ELSE LET u == TLCEval(Rnd(Times(t, q), k * k)) IN t + I0Sum(u, q, k + 1)
I0(hw, q) == LET v == TLCEval(q) IN I0Sum(T0(hw), v, 1)
I0Max == [hw \in 1..10 |-> Rnd(I0(hw, QQ(hw)), 16)]
Window(hw, p, den) == Rnd(I0(hw, Q(hw, p, den)) * 1024, I0Max[hw])    \* 2^14
Sinc(p, den) == IF p = 0 THEN One ELSE IF p % den = 0 THEN 0 ELSE
                LET s == Cos(2 * p - den, 4 * den) * (IF p < 0 THEN -1 ELSE 1) IN Rnd(s * 113 * den, 355 * Abs(p))
CosPi(p, den) == Cos(p, 2 * den)
\* the derivative of sinc
DSinc(p, den) == IF p = 0 THEN 0 ELSE LET v == (CosPi(p, den) - Sinc(p, den)) * den
                 IN  IF p > 0 THEN Rnd(v, p) ELSE Rnd(-v, -p)
Kernel1(hw, mono, p, den) == IF Abs(p) > hw * den THEN 0
                             ELSE Rnd((IF mono THEN Sinc(p, den) ELSE DSinc(p, den)) * Window(hw, p, den), One)
\* weights by distance p/den, for the trace's half-width
Table(hw, den) == TLCEval([mono \in BOOLEAN |-> TLCEval([p \in -(hw * den)..(hw * den) |-> Kernel1(hw, mono, p, den)])])
OnNode(num, den) == num % den = 0
\* surface positions are given doubled; mirror image of a node
RECURSIVE Home(_, _, _)
\* where a node ends up and with which sign (0: on the surface)
Home(node, fs, k) ==
  IF k = 0 THEN [node |-> node, sign |-> 1]
  ELSE IF fs.lo /\ 2 * node < fs.lo2 THEN LET h == Home(fs.lo2 - node, fs, k - 1) IN [h EXCEPT !.sign = -@]
  ELSE IF fs.hi /\ 2 * node > fs.hi2 THEN LET h == Home(fs.hi2 - node, fs, k - 1) IN [h EXCEPT !.sign = -@]
  ELSE [node |-> node, sign |-> IF (fs.lo /\ 2 * node = fs.lo2) \/ (fs.hi /\ 2 * node = fs.hi2) THEN 0 ELSE 1]
Near(hw, num, den) == {x \in (num \div den - hw)..(num \div den + hw + 1) : x * den - num <= hw * den /\ num - x * den <= hw * den}
RECURSIVE SetSum(_, _)
SetSum(f, S) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN f[e] + SetSum(f, S \ {e})
\* All weights of a point in one dimension: a function on the nodes it reaches.
\* K: Table(hw, den).  Two choices are left open: a dipole on a node may leave
\* out the nodes at distance exactly hw (skip), and a node on the surface either
\* cancels with itself or keeps its weight (surf: which surfaces, doubled).
Line(K, hw, mono, num, den, fs, skip, surf) ==
  IF mono /\ OnNode(num, den) THEN [x \in {num \div den} |-> 16384]
  ELSE LET from == TLCEval(Near(hw, num, den) \ skip)
           home == TLCEval([x \in from |-> Home(x, fs, 3)])
           val == TLCEval([x \in from |-> K[mono][x * den - num] *
                             (IF home[x].sign = 0 THEN (IF home[x].node = x /\ 2 * x \in surf THEN 1 ELSE 0) ELSE home[x].sign)])
       IN  TLCEval([y \in {home[x].node : x \in from} |-> SetSum(val, {x \in from : home[x].node = y})])
Skips(hw, mono, num, den) == IF mono \/ ~OnNode(num, den) THEN {{}}
                             ELSE {{}, {num \div den - hw}, {num \div den + hw}, {num \div den - hw, num \div den + hw}}
Surfs(hw, num, den, fs) ==
  SUBSET {z \in (IF fs.lo THEN {fs.lo2} ELSE {}) \cup (IF fs.hi THEN {fs.hi2} ELSE {}) : z % 2 = 0 /\ z \div 2 \in Near(hw, num, den)}
Lines(K, hw, mono, num, den, fs) ==
  TLCEval({Line(K, hw, mono, num, den, fs, a, b) : a \in Skips(hw, mono, num, den), b \in Surfs(hw, num, den, fs)})
At(line, x) == IF x \in DOMAIN line THEN line[x] ELSE 0
=============================================================================
