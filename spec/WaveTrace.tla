----------------------------- MODULE WaveTrace -----------------------------
(***************************************************************************)
(* Runs the specified propagator on each case of CASES (recorded from the  *)
(* implementation by the harness) and checks everything that was observed: *)
(* the state handed to callbacks, every receiver sample, the returned      *)
(* wavefields and, for K > 1, the gradients (as directional derivatives of *)
(* a random functional of the outputs: linear, or quadratic for K = 4).    *)
(*                                                                         *)
(* bad stays <<>> as long as everything agrees; otherwise it names the     *)
(* first clause that failed.  Finish prints one verdict per case.          *)
(***************************************************************************)
EXTENDS Propagators, Extents, TimeLoop, FiniteSets, Json, IOUtils, SequencesExt
VARIABLES ci, g, m, st, t, ph, L, bad, seen
vars == <<ci, g, m, st, t, ph, L, bad, seen>>

Cases == JsonDeserialize(IOEnv.CASES)
C == Cases[ci]

Init ==
  /\ ci \in 1..Len(Cases)
  /\ g = <<>> /\ m = <<>> /\ st = <<>> /\ L = <<>>
  /\ t = 0 /\ ph = 0 /\ bad = <<>> /\ seen = 0

(* Things decided before anything is propagated: which part of a larger    *)
(* model is simulated, and the schedule on which callbacks were called.    *)
CaseBad ==
  IF C.emb # <<>> /\ EmbedBad(C, C.emb[1], Re) # <<>> THEN EmbedBad(C, C.emb[1], Re)
  ELSE IF C.sched # <<>> /\ ScheduleBad(C.sched[1]) # <<>> THEN ScheduleBad(C.sched[1])
  ELSE IF C.mutated # <<>> THEN <<"input-modified", C.mutated[1]>>
  ELSE IF C.twice # <<>> /\ C.twice[1] # C.twice[2] THEN <<"repeated-call-differs">>
  ELSE IF C.rejects # <<>> THEN <<"not-rejected", C.rejects[1]>>
  ELSE <<>>

(* The models as they act on step s.  With a gradient sampling interval q  *)
(* only every q-th internal step carries the model direction, q times      *)
(* (model_on), the others carry none (model_off).                          *)
Prepare ==
  /\ g = <<>> /\ bad = <<>>
  /\ IF C.error # ""
     THEN /\ bad' = <<"error", C.error>> /\ UNCHANGED <<g, m, st, L>>
     ELSE IF CaseBad # <<>>
     THEN /\ bad' = CaseBad /\ UNCHANGED <<g, m, st, L>>
     ELSE LET gg == Geo(C) @@ [half |-> TLCEval([n \in Names(C) |-> HalfOf(C, n)])] IN
          /\ g' = gg
          /\ m' = [ full |-> Models(C, gg),
                    on |-> IF C.q = 1 THEN <<>> ELSE Models([C EXCEPT !.model = C.model_on], gg),
                    off |-> IF C.q = 1 /\ C.start < 0 THEN <<>>
                            ELSE Models([C EXCEPT !.model = C.model_off], gg) ]
          /\ st' = InitState(C, gg)
          /\ L' = Zero
          /\ bad' = <<>>
  /\ UNCHANGED <<ci, t, ph, seen>>

\* Sources are scaled with the models themselves, whatever the interval.
StepModel(s, phase) ==
  IF C.start >= 0 THEN IF s < C.start \/ phase \in {"inject", "inject_velocity", "inject_pressure"}
                       THEN m.off ELSE IF C.q = 1 THEN m.full ELSE IF s % C.q = 0 THEN m.on ELSE m.off
  ELSE IF C.q = 1 \/ phase \in {"inject", "inject_velocity", "inject_pressure"} THEN m.full
  ELSE IF s % C.q = 0 THEN m.on ELSE m.off

---------------------------------------------------------------------------
(* What callbacks expose under each name and view.                         *)
Prepared(n) ==      \* the prepared model of that name
  CASE C.kind \in {"scalar", "born"} -> IF n = "v" THEN m.full.v ELSE m.full.scatter
    [] C.kind = "acoustic" -> IF n = "K" THEN m.full.K
                              ELSE m.full.B[CHOOSE d \in 1..g.nd : n = "B" \o Dn(g.nd, d)]
    [] OTHER -> IF n = "lamb" THEN m.full.lamb ELSE IF n = "mu" THEN m.full.mu
                ELSE IF \E d \in 1..g.nd : n = "buoyancy_" \o Dn(g.nd, d)
                THEN m.full.B[CHOOSE d \in 1..g.nd : n = "buoyancy_" \o Dn(g.nd, d)]
                ELSE LET p == CHOOSE p \in Idx2(g.nd) : p[1] < p[2] /\ n = "mu_" \o Dn(g.nd, p[1]) \o Dn(g.nd, p[2])
                     IN  m.full.mus[p[1]][p[2]]
ModelHalf(n) ==
  IF C.kind \in {"scalar", "born"} \/ n \in {"K", "lamb", "mu"} THEN {}
  ELSE {d \in 1..g.nd : \/ n \in {"B" \o Dn(g.nd, d), "buoyancy_" \o Dn(g.nd, d)}
                        \/ \E e \in 1..g.nd : d # e /\ n \in {"mu_" \o Dn(g.nd, d) \o Dn(g.nd, e), "mu_" \o Dn(g.nd, e) \o Dn(g.nd, d)}}
PmlShape == [d \in 1..g.nd |-> g.S[d] - g.h - g.hi]
\* the cells of the j-th value of a view with the given extent and offset
ViewCell(j, shp, off) ==
  LET per == ProdFrom(shp, 1)
      s == (j - 1) \div per
      co == [d \in 1..g.nd |-> (((j - 1) % per) \div ProdFrom(shp, d + 1)) % shp[d]]
  IN  1 + s * g.cells + FlatIdx([d \in 1..g.nd |-> co[d] + off[d]], g.S, 1, 0)
ViewSub(e, v, shp, off) ==   \* v is the part of the full view at off
  /\ Len(v.shape) = g.nd + 1 /\ v.shape = <<e.full.shape[1]>> \o shp
  /\ Len(v.v) = v.shape[1] * ProdFrom(shp, 1)
  /\ \A j \in 1..Len(v.v) : v.v[j] = e.full.v[ViewCell(j, shp, off)]
ViewBad(e) ==
  IF e.error # "" THEN <<"view-error", e.what, e.name, e.error>>
  ELSE IF \/ Len(e.full.shape) # g.nd + 1 \/ Tail(e.full.shape) # g.S
          \/ e.full.shape[1] \notin (IF e.what = "wavefield" THEN {g.ns} ELSE {1, g.ns})
  THEN <<"view-shape", e.what, e.name, e.full.shape>>
  ELSE IF ~ViewSub(e, e.pml, PmlShape, [d \in 1..g.nd |-> g.h]) THEN <<"view-pml", e.what, e.name, e.pml.shape>>
  ELSE IF ~ViewSub(e, e.inner, C.n, [d \in 1..g.nd |-> Lo(C, d)]) THEN <<"view-inner", e.what, e.name, e.inner.shape>>
  ELSE IF e.what = "model"
  THEN LET x == Prepared(e.name)
           w == {i \in 1..g.N : Active(g, i, ModelHalf(e.name)) /\ Re(x[i]) # e.full.v[1 + ((i - 1) % Len(e.full.v))]}
       IN  IF w = {} THEN <<>>
           ELSE LET i == CHOOSE i \in w : TRUE
                IN  <<"callback-model", e.name, g.sh[i], g.co[i], Re(x[i]), e.full.v[1 + ((i - 1) % Len(e.full.v))]>>
  ELSE <<>>
ViewsBad(s) ==
  LET ks == {k \in 1..Len(C.views) : C.views[k].t = s /\ ViewBad(C.views[k]) # <<>>}
  IN  IF ks = {} THEN <<>> ELSE ViewBad(C.views[CHOOSE k \in ks : \A x \in ks : k <= x])

---------------------------------------------------------------------------
Pick(S) == CHOOSE x \in S : \A y \in S : x <= y
FieldDiff(f, o) == {i \in 1..g.N : Re(f[i]) # o[i]}
\* every field was observed, under its own name, and is equal
ObsBad(s, k) ==
  LET o == C.obs[k].f
      miss == {n \in DOMAIN st : n \notin DOMAIN o}
      shape == {n \in DOMAIN st \ miss : Len(o[n]) # g.N}
      wrong == {n \in DOMAIN st \ (miss \cup shape) : FieldDiff(st[n], o[n]) # {}}
  IN  IF miss # {} THEN <<"callback-missing-field", CHOOSE n \in miss : TRUE, s>>
      ELSE IF shape # {} THEN <<"callback-field-shape", CHOOSE n \in shape : TRUE, s>>
      ELSE IF wrong # {}
      THEN LET n == CHOOSE n \in wrong : TRUE
               i == Pick(FieldDiff(st[n], o[n]))
           IN  <<"callback-field", n, s, g.sh[i], g.co[i], Re(st[n][i]), o[n][i]>>
      ELSE <<>>
ObsAt(s) == {k \in 1..Len(C.obs) : C.obs[k].t = s}
ObsAllBad(s) ==
  LET ks == {k \in ObsAt(s) : ObsBad(s, k) # <<>>}
  IN  IF ks = {} THEN <<>> ELSE ObsBad(s, Pick(ks))

\* receivers: c.rec[type][shot][k], observed samples c.robs[type][shot][k][t]
RecVal(ty, s, k) ==
  IF C.rec[ty][s][k] = <<>> THEN Zero
  ELSE Sample(C, g, st, ty, Loc(C, g, s, C.rec[ty][s][k]))
RecIdx(ty) == {<<s, k>> \in (1..C.ns) \X (1..Len(C.rec[ty][1])) : TRUE}
RecWrong(ty) == {x \in RecIdx(ty) : Re(RecVal(ty, x[1], x[2])) # C.robs[ty][x[1]][x[2]][t + 1]}
\* forward-mode derivatives of what receivers hold
TangWrong(ty) == {x \in RecIdx(ty) : RecVal(ty, x[1], x[2])[2] # C.tang[1].robs[ty][x[1]][x[2]][t + 1]}
TangBad ==
  LET tys == {ty \in DOMAIN C.rec : TangWrong(ty) # {}}
      ty == CHOOSE ty \in tys : TRUE
      x == CHOOSE x \in TangWrong(ty) : TRUE
  IN  IF C.tang = <<>> \/ tys = {} THEN <<>>
      ELSE <<"receiver-tangent", ty, t, x[1], x[2], RecVal(ty, x[1], x[2])[2], C.tang[1].robs[ty][x[1]][x[2]][t + 1]>>
RecBad ==
  LET tys == {ty \in DOMAIN C.rec : RecWrong(ty) # {}}
  IN  IF tys = {} THEN <<>>
      ELSE LET ty == CHOOSE ty \in tys : TRUE
               x == CHOOSE x \in RecWrong(ty) : TRUE
           IN  <<"receiver", ty, t, x[1], x[2], Re(RecVal(ty, x[1], x[2])), C.robs[ty][x[1]][x[2]][t + 1]>>
\* contribution of one output value x with weights w (linear), u (quadratic)
Term(x, w, u) == IF K = 4 THEN Add(Scale(w, x), Scale(u, Mul(x, x))) ELSE Scale(w, x)
RecLoss ==
  IF K = 1 THEN Zero
  ELSE LET tys == SetToSeq(DOMAIN C.rec)
           OfTy(acc0, ty) ==
             FoldLeftDomain(LAMBDA acc, s :
               FoldLeftDomain(LAMBDA a, k :
                 Add(a, Term(RecVal(ty, s, k), C.wrec[ty][s][k][t + 1],
                             IF K = 4 THEN C.urec[ty][s][k][t + 1] ELSE 0)),
                 acc, C.rec[ty][s]),
               acc0, C.rec[ty])
       IN  FoldLeft(OfTy, Zero, tys)

---------------------------------------------------------------------------
NPh == Len(Phases(C.kind))
Running == g # <<>> /\ bad = <<>>
(* The state a backward callback observes at the start of step C.start is  *)
(* the derivative with respect to that state, and its gradients those with *)
(* respect to the models of the steps from there on: perturb both.         *)
PerturbDim(n) == MemOf(C, n)
Perturb ==
  /\ Running /\ ph = 0 /\ t = C.start
  /\ st' = [n \in DOMAIN st |->
              TLCEval([i \in 1..g.N |->
                IF Active(g, i, g.half[n]) /\ InStrip(C, g, i, g.half[n], PerturbDim(n))
                   /\ n \in DOMAIN C.cbw
                THEN Add(st[n][i], <<0, C.pdir[n][i]>>) ELSE st[n][i]])]
  /\ ph' = 1
  /\ UNCHANGED <<ci, g, m, t, L, bad, seen>>
StartStep ==         \* the state as every step starts: callbacks, then receivers
  /\ Running /\ ph = (IF t = C.start THEN 1 ELSE 0) /\ t < C.nt
  /\ LET b0 == ObsAllBad(t)
         b1 == IF b0 # <<>> THEN b0 ELSE ViewsBad(t)
         b2 == IF b1 # <<>> THEN b1 ELSE IF RecBad # <<>> THEN RecBad ELSE TangBad
     IN  /\ bad' = b2
         /\ L' = IF b2 = <<>> THEN Add(L, RecLoss) ELSE L
         /\ seen' = seen + Cardinality(ObsAt(t)) * Cardinality(DOMAIN st) * g.N
                         + C.nrec + Cardinality({k \in 1..Len(C.views) : C.views[k].t = t})
  /\ ph' = 2
  /\ UNCHANGED <<ci, g, m, st, t>>
DoPhase ==
  /\ Running /\ ph >= 2
  /\ st' = Apply(C, g, StepModel(t, Phases(C.kind)[ph]), st, Phases(C.kind)[ph], t)
  /\ IF ph = NPh THEN ph' = 0 /\ t' = t + 1 ELSE ph' = ph + 1 /\ t' = t
  /\ UNCHANGED <<ci, g, m, L, bad, seen>>

\* returned wavefields: the fields without the finite difference padding
Trim == [d \in 1..g.nd |-> g.S[d] - g.h - g.hi]
NTrim == g.ns * ProdFrom(Trim, 1)
TrimCell(j) ==       \* cell of the j-th value of a returned wavefield
  LET per == ProdFrom(Trim, 1)
      s == 1 + ((j - 1) \div per)
      co == [d \in 1..g.nd |-> (((j - 1) % per) \div ProdFrom(Trim, d + 1)) % Trim[d]]
  IN  1 + (s - 1) * g.cells + FlatIdx([d \in 1..g.nd |-> co[d] + g.h], g.S, 1, 0)
FinDiff(n) == {j \in 1..NTrim : Re(st[n][TrimCell(j)]) # C.fin[n].v[j]}
FinBad ==
  LET miss == {n \in DOMAIN st : n \notin DOMAIN C.fin}
      shape == {n \in DOMAIN st \ miss : C.fin[n].shape # <<g.ns>> \o Trim}
      wrong == {n \in DOMAIN st \ (miss \cup shape) : FinDiff(n) # {}}
  IN  IF miss # {} THEN <<"final-missing", CHOOSE n \in miss : TRUE>>
      ELSE IF shape # {} THEN <<"final-shape", CHOOSE n \in shape : TRUE>>
      ELSE IF wrong # {}
      THEN LET n == CHOOSE n \in wrong : TRUE
               j == Pick(FinDiff(n))
               i == TrimCell(j)
           IN  <<"final-wavefield", n, g.sh[i], g.co[i], Re(st[n][i]), C.fin[n].v[j]>>
      ELSE <<>>
FinTangDiff(n) == {j \in 1..NTrim : st[n][TrimCell(j)][2] # C.tang[1].fin[n][j]}
FinTangBad ==
  LET wrong == {n \in DOMAIN st : FinTangDiff(n) # {}}
      n == CHOOSE n \in wrong : TRUE
      j == Pick(FinTangDiff(n))
  IN  IF C.tang = <<>> \/ wrong = {} THEN <<>>
      ELSE <<"final-tangent", n, g.sh[TrimCell(j)], g.co[TrimCell(j)], st[n][TrimCell(j)][2], C.tang[1].fin[n][j]>>
FinLoss ==
  IF K = 1 THEN Zero
  ELSE LET ns == SetToSeq(DOMAIN C.wfin \cap DOMAIN st)
           OfName(acc0, n) ==
             FoldLeftDomain(LAMBDA acc, j :
               Add(acc, Term(st[n][TrimCell(j)], C.wfin[n][j], IF K = 4 THEN C.ufin[n][j] ELSE 0)),
               acc0, C.wfin[n])
       IN  FoldLeft(OfName, Zero, ns)
\* sum of gradient times direction over everything differentiated
Dot(acc0, x) == FoldLeftDomain(LAMBDA acc, j : (acc + M2(x.g[j], x.d[j])) % P, acc0, x.g)
\* what a backward callback reported, along the perturbation
DotAt(f, o, acc0) ==
  FoldLeftDomain(LAMBDA acc, i : (acc + M2(f[i][2], o[i])) % P, acc0, o)  \* o: one for all shots, or one each
\* the adjoint of the previous wavefield is propagated with opposite sign
Sign(n) == IF C.kind \in {"scalar", "born"} /\ n \in {NWfm(""), NWfm("_sc")} THEN -1 ELSE 1
CbWant(l) == l[2]
CbNames == SetToSeq(DOMAIN C.cbw)
CbGot ==
  LET w == FoldLeft(LAMBDA acc, n :
             FoldLeftDomain(LAMBDA a, i :
               IF Active(g, i, g.half[n]) /\ InStrip(C, g, i, g.half[n], PerturbDim(n))
               THEN (a + M2(C.pdir[n][i], Sign(n) * C.cbw[n][i])) % P ELSE a, acc, C.cbw[n]),
             0, CbNames)
  IN  FoldLeft(LAMBDA acc, n : DotAt(Prepared(n), C.cbg[n], acc), w, SetToSeq(DOMAIN C.cbg))
CbBad(l) ==
  IF \/ \E n \in DOMAIN C.cbw : Len(C.cbw[n]) # g.N \/ \E i \in 1..g.N : C.cbw[n][i] < 0
     \/ \E n \in DOMAIN C.cbg : Len(C.cbg[n]) \notin {g.N, g.cells} \/ \E i \in 1..Len(C.cbg[n]) : C.cbg[n][i] < 0
  THEN <<"backward-callback-shape-or-value", C.start>>
  ELSE IF CbWant(l) # CbGot THEN <<"backward-callback", C.start, CbWant(l), CbGot>> ELSE <<>>
Bogus(x) == \E j \in 1..Len(x.g) : x.g[j] < 0
GradBad(l) ==
  IF K = 1 THEN <<>>
  ELSE IF C.tang # <<>> THEN FinTangBad
  ELSE IF C.start >= 0 THEN CbBad(l)
  ELSE LET bogus == {k \in 1..Len(C.grads) : Bogus(C.grads[k])}
           want == IF K = 2 THEN l[2] ELSE l[4]
           got == FoldLeft(Dot, 0, C.grads)
           again == {k \in 1..Len(C.again) : FoldLeft(Dot, 0, C.again[k]) # want}
       IN  IF bogus # {} THEN <<"gradient-not-representable", C.grads[Pick(bogus)].name>>
           ELSE IF want # got THEN <<"gradient", want, got>>
           ELSE IF again # {} THEN <<"gradient-of-repeated-backward", want>>
           ELSE <<>>
Finish ==
  /\ Running /\ ph = 0 /\ t = C.nt
  /\ LET b1 == ObsAllBad(C.nt)
         b2 == IF b1 # <<>> THEN b1 ELSE FinBad
         l == Add(L, FinLoss)
         b3 == IF b2 # <<>> THEN b2 ELSE GradBad(l)
     IN  /\ bad' = IF b3 = <<>> THEN <<"ok">> ELSE b3
         /\ L' = l
         /\ seen' = seen + Cardinality(DOMAIN st) * NTrim
                    + FoldLeft(LAMBDA a, x : a + Len(x.g), 0, IF K = 1 THEN <<>> ELSE C.grads)
  /\ ph' = 0 /\ t' = t + 1
  /\ UNCHANGED <<ci, g, m, st>>
Report ==
  /\ bad # <<>> /\ ph # -1
  /\ PrintT("VERDICT " \o ToJson([id |-> C.id, verdict |-> bad, steps |-> t, seen |-> seen]))
  /\ ph' = -1
  /\ UNCHANGED <<ci, g, m, st, t, L, bad, seen>>

Next == Prepare \/ Perturb \/ StartStep \/ DoPhase \/ Finish \/ Report
Spec == Init /\ [][Next]_vars

\* fields stay zero outside their active cells, whatever the inputs
Contained == (g # <<>> /\ ph = 0) =>
  \A n \in DOMAIN st :
    LET hf == g.half[n] IN \A i \in 1..g.N : IsZero(st[n][i]) \/ Active(g, i, hf)
=============================================================================
