----------------------------- MODULE HicksTrace -----------------------------
(***************************************************************************)
(* Judges recorded Hicks objects: nodes, weights (through source() and     *)
(* receiver()), and the adjointness of the two.                            *)
(***************************************************************************)
EXTENDS Hicks, Json, IOUtils
VARIABLES ci, done
Cases == JsonDeserialize(IOEnv.CASES)
Tol == 24              \* of 2^14
Fs(c, d) == [lo |-> c.fs[2 * d + 1], hi |-> c.fs[2 * d + 2], lo2 |-> c.fs2[2 * d + 1], hi2 |-> c.fs2[2 * d + 2]]
\* a point is <<num0, num1, monopole, dipole dimension>>
Mono(pt, d) == pt.mono \/ pt.dim # d
LinesOf(c, kt, pt, d) == Lines(kt, c.hw, Mono(pt, d), pt.num[d + 1], c.den, Fs(c, d))
Plain(c, kt, pt, d) == Line(kt, c.hw, Mono(pt, d), pt.num[d + 1], c.den, Fs(c, d), {}, {})
\* does the observed column o.w[..][i] fit the point, for some choice at the edges?
PointBad(c, kt, o, i, pt) ==
  LET nodeset == TLCEval({o.nodes[k] : k \in 1..Len(o.nodes)})
      fits(l0, l1) ==
        /\ \A k \in 1..Len(o.nodes) : Abs(o.w[k][i] - Rnd(At(l0, o.nodes[k][1]) * At(l1, o.nodes[k][2]), 16384)) <= Tol
        /\ \A x \in DOMAIN l0, y \in DOMAIN l1 :
             Abs(Rnd(l0[x] * l1[y], 16384)) <= Tol \/ <<x, y>> \in nodeset
      ls0 == LinesOf(c, kt, pt, 0)
      ls1 == LinesOf(c, kt, pt, 1)
      ok == \E a \in ls0, b \in ls1 : fits(a, b)
      l0 == TLCEval(Plain(c, kt, pt, 0))
      l1 == TLCEval(Plain(c, kt, pt, 1))
      bad == {k \in 1..Len(o.nodes) : Abs(o.w[k][i] - Rnd(At(l0, o.nodes[k][1]) * At(l1, o.nodes[k][2]), 16384)) > Tol}
      k == CHOOSE k \in bad : TRUE
  IN  IF ok THEN <<"ok">>
      ELSE IF bad = {} THEN <<"node-missing", i, pt>>
      ELSE <<"weight", i, pt, o.nodes[k], o.w[k][i], Rnd(At(l0, o.nodes[k][1]) * At(l1, o.nodes[k][2]), 16384)>>
NodesBad(c, kt, o) ==
  LET pts == c.shots[o.shot]
      reach == TLCEval([i \in 1..Len(pts) |-> [d \in 1..2 |-> DOMAIN Plain(c, kt, pts[i], d - 1)]])
  IN
  IF Cardinality({o.nodes[a] : a \in 1..Len(o.nodes)}) # Len(o.nodes) THEN <<"duplicate-node">>
  ELSE IF \E a \in 1..Len(o.nodes), d \in 1..2 :
            \/ Fs(c, d - 1).lo /\ 2 * o.nodes[a][d] < Fs(c, d - 1).lo2
            \/ Fs(c, d - 1).hi /\ 2 * o.nodes[a][d] > Fs(c, d - 1).hi2
  THEN <<"node-beyond-free-surface">>
  \* no node but those of some point (folded ones included)
  ELSE IF \E a \in 1..Len(o.nodes) : \A i \in 1..Len(pts) :
            ~(o.nodes[a][1] \in reach[i][1] /\ o.nodes[a][2] \in reach[i][2])
  THEN <<"node-outside-half-width">>
  ELSE <<"ok">>
RECURSIVE First(_, _)
First(f, i) == IF i > Len(f) THEN <<"ok">> ELSE IF f[i] # <<"ok">> THEN f[i] ELSE First(f, i + 1)
ObsBad(c, kt, o) == LET b == NodesBad(c, kt, o) IN
  IF b # <<"ok">> THEN b
  ELSE First([i \in 1..Len(c.shots[o.shot]) |-> PointBad(c, kt, o, i, c.shots[o.shot][i])], 1)
Bad(c) == IF c.error # "" THEN <<"error", c.error>>
       ELSE IF \E i \in 1..Len(c.devs) : c.devs[i].dev > 1000      \* 1e-6
       THEN LET i == CHOOSE i \in 1..Len(c.devs) : c.devs[i].dev > 1000 IN <<"differs", c.devs[i].what, c.devs[i].dev>>
       ELSE LET kt == TLCEval(Table(c.hw, c.den)) IN First([i \in 1..Len(c.obs) |-> ObsBad(c, kt, c.obs[i])], 1)
Init == ci \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED ci /\ LET c == Cases[ci] IN PrintT("VERDICT " \o ToJson([id |-> c.id, verdict |-> Bad(c)]))
Spec == Init /\ [][Next]_<<ci, done>>
=============================================================================
