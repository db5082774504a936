---------------------------- MODULE Propagators ----------------------------
(***************************************************************************)
(* The state and the transitions of the four propagators.                  *)
(*                                                                         *)
(* st maps field names to fields.  One internal time step of a propagator  *)
(* is the sequence of phases Phases(kind); each phase is one transition.   *)
(***************************************************************************)
EXTENDS Grid

Idx2(nd) == {p \in (1..nd) \X (1..nd) : p[1] # p[2]}
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
Lower(p) == IF p[1] < p[2] THEN p[1] ELSE p[2]
Upper(p) == IF p[1] < p[2] THEN p[2] ELSE p[1]

--------------------------------------------------------------------------
(* names *)
NWf0(sfx) == "wavefield" \o sfx \o "_0"
NWfm(sfx) == "wavefield" \o sfx \o "_m1"
NPsi(nd, d, sfx) == "psi" \o Dn(nd, d) \o sfx \o "_m1"
NZeta(nd, d, sfx) == "zeta" \o Dn(nd, d) \o sfx \o "_m1"
NV(nd, d) == "v" \o Dn(nd, d) \o "_0"
NPhiA(nd, d) == "phi_" \o Dn(nd, d) \o "_0"
NPsiA(nd, d) == "psi_" \o Dn(nd, d) \o "_0"
PairN(nd, i, j) == LET p == <<i, j>> IN Dn(nd, Upper(p)) \o Dn(nd, Lower(p))
NSn(nd, d) == "sigma" \o Dn(nd, d) \o Dn(nd, d) \o "_0"
NSs(nd, i, j) == "sigma" \o PairN(nd, i, j) \o "_0"
NMv(nd, i, j) == "m_v" \o Dn(nd, i) \o Dn(nd, j) \o "_0"
NMsn(nd, d) == "m_sigma" \o Dn(nd, d) \o Dn(nd, d) \o Dn(nd, d) \o "_0"
NMss(nd, i, j) == "m_sigma" \o PairN(nd, i, j) \o Dn(nd, j) \o "_0"

\* (name, half-cell shifted dimensions, dimension of the memory variable or 0)
ScalarSpecies(nd, sfx) ==
  { <<NWf0(sfx), {}, 0>>, <<NWfm(sfx), {}, 0>> }
  \cup { <<NPsi(nd, d, sfx), {}, d>> : d \in 1..nd }
  \cup { <<NZeta(nd, d, sfx), {}, d>> : d \in 1..nd }
AcousticSpecies(nd) ==
  { <<"pressure_0", {}, 0>> }
  \cup { <<NV(nd, d), {d}, 0>> : d \in 1..nd }
  \cup { <<NPhiA(nd, d), {}, d>> : d \in 1..nd }
  \cup { <<NPsiA(nd, d), {d}, d>> : d \in 1..nd }
ElasticSpecies(nd) ==
  { <<NV(nd, d), {d}, 0>> : d \in 1..nd }
  \cup { <<NSn(nd, d), {}, 0>> : d \in 1..nd }
  \cup { <<NSs(nd, p[1], p[2]), {p[1], p[2]}, 0>> : p \in Idx2(nd) }
  \cup { <<NMv(nd, d, d), {}, d>> : d \in 1..nd }
  \cup { <<NMv(nd, p[1], p[2]), {p[1], p[2]}, p[2]>> : p \in Idx2(nd) }
  \cup { <<NMsn(nd, d), {d}, d>> : d \in 1..nd }
  \cup { <<NMss(nd, p[1], p[2]), {p[1]}, p[2]>> : p \in Idx2(nd) }
Species(c) ==
  CASE c.kind = "scalar" -> ScalarSpecies(c.nd, "")
    [] c.kind = "born" -> ScalarSpecies(c.nd, "") \cup ScalarSpecies(c.nd, "_sc")
    [] c.kind = "acoustic" -> AcousticSpecies(c.nd)
    [] c.kind = "elastic" -> ElasticSpecies(c.nd)
Names(c) == {s[1] : s \in Species(c)}
HalfOf(c, n) == (CHOOSE s \in Species(c) : s[1] = n)[2]
MemOf(c, n) == (CHOOSE s \in Species(c) : s[1] = n)[3]

(* A memory variable given as an initial wavefield only counts inside its  *)
(* PML strip.                                                              *)
InStrip(c, g, i, hf, d) ==
  d = 0 \/ g.co[i][d] < Lo(c, d)
        \/ g.co[i][d] > g.S[d] - 1 - Hi(c, d) - (IF d \in hf THEN 1 ELSE 0)
InitState(c, g) ==
  [n \in Names(c) |->
     IF n \in DOMAIN c.init
     THEN LET hf == HalfOf(c, n)
              m == MemOf(c, n)
          IN  EmbedField(c, g, c.init[n], hf, LAMBDA i : InStrip(c, g, i, hf, m))
     ELSE ZeroField(g)]

--------------------------------------------------------------------------
(* prepared models *)
Avg2(g, f, i, d) == Scale(Rat(1, 2), Add(f[i], f[i + g.str[d]]))
\* buoyancy between i and i + 1: the inverse of the mean density
Buoy(g, rho, d) ==
  Field(g, {d}, LAMBDA i : LET m == Avg2(g, rho, i, d) IN IF IsZero(m) THEN Zero ELSE InvR(m))
\* harmonic mean of mu over the four cells around the (i, j) edge
MuHarm(g, mu, i, j) ==
  Field(g, {i, j}, LAMBDA k :
    LET q == << mu[k], mu[k + g.str[i]], mu[k + g.str[j]], mu[k + g.str[i] + g.str[j]] >>
    IN  IF \E x \in 1..4 : Re(q[x]) = 0 THEN Zero
        ELSE Scale(4, InvR(Add(Add(InvR(q[1]), InvR(q[2])), Add(InvR(q[3]), InvR(q[4]))))))
Models(c, g) ==
  CASE c.kind \in {"scalar", "born"} ->
         LET v == ExtendModel(c, g, c.model.v)
             dt2 == M2(c.dt, c.dt)
             sc == IF c.kind = "born" THEN ZeroExtend(c, g, c.model.scatter) ELSE v
         IN  [ v2dt2 |-> TLCEval([i \in 1..g.N |-> Scale(dt2, Mul(v[i], v[i]))]),
               \* the derivative of v^2 dt^2 in the direction of scatter
               sdt2 |-> IF c.kind = "born"
                        THEN TLCEval([i \in 1..g.N |-> Scale(M2(2, dt2), Mul(v[i], sc[i]))])
                        ELSE <<>>,
               v |-> v, scatter |-> sc ]
    [] c.kind = "acoustic" ->
         LET v == ExtendModel(c, g, c.model.v)
             rho == ExtendModel(c, g, c.model.rho)
         IN  [ K |-> TLCEval([i \in 1..g.N |-> Mul(rho[i], Mul(v[i], v[i]))]),
               B |-> TLCEval([d \in 1..g.nd |-> Buoy(g, rho, d)]) ]
    [] c.kind = "elastic" ->
         LET lamb == ExtendModel(c, g, c.model.lamb)
             mu == ExtendModel(c, g, c.model.mu)
             b == ExtendModel(c, g, c.model.buoyancy)
             rho == TLCEval([i \in 1..g.N |-> IF Re(b[i]) = 0 THEN Zero ELSE InvR(b[i])])
         IN  [ lamb |-> lamb, mu |-> mu,
               B |-> TLCEval([d \in 1..g.nd |-> Buoy(g, rho, d)]),
               mus |-> TLCEval([i \in 1..g.nd |-> TLCEval([j \in 1..g.nd |->
                         IF i < j THEN MuHarm(g, mu, i, j) ELSE <<>>])]) ]
MuS(m, i, j) == IF i < j THEN m.mus[i][j] ELSE m.mus[j][i]

--------------------------------------------------------------------------
(* sums over dimensions *)
RECURSIVE SumD(_, _)
SumD(F(_), d) == IF d = 0 THEN Zero ELSE Add(F(d), SumD(F, d - 1))

(* scalar wave equation with CPML *)
Pa(g, i, d) == g.a[d][g.co[i][d] + 1]
Pb(g, i, d) == g.b[d][g.co[i][d] + 1]
Pdb(g, i, d) == g.db[d][g.co[i][d] + 1]
Pah(g, i, d) == g.ah[d][g.co[i][d] + 1]
Pbh(g, i, d) == g.bh[d][g.co[i][d] + 1]

ScalarTmp(g, st, sfx) ==
  TLCEval([d \in 1..g.nd |->
    LET w == st[NWf0(sfx)]
        psi == st[NPsi(g.nd, d, sfx)]
        apsi == TLCEval([i \in 1..g.N |-> Scale(Pa(g, i, d), psi[i])])
    IN  Field(g, {}, LAMBDA i :
          Add(Add(Scale(1 + Pb(g, i, d), D2(g, w, i, d)),
                  Scale(Pdb(g, i, d), D1(g, w, i, d))),
              D1(g, apsi, i, d)))])
ScalarLap(g, st, sfx, tmp) ==
  Field(g, {}, LAMBDA i :
    LET T(d) == Add(Scale(1 + Pb(g, i, d), tmp[d][i]),
                    Scale(Pa(g, i, d), st[NZeta(g.nd, d, sfx)][i]))
    IN  SumD(T, g.nd))
\* the new fields of one species, given extra(i), added to the new wavefield
ScalarNew(g, m, st, sfx, tmp, lap, Extra(_)) ==
  LET w == st[NWf0(sfx)]
      wm == st[NWfm(sfx)]
  IN  [ w0 |-> Field(g, {}, LAMBDA i :
                 Add(Add(Mul(m.v2dt2[i], lap[i]), Sub(Scale(2, w[i]), wm[i])), Extra(i))),
        psi |-> TLCEval([d \in 1..g.nd |-> LET psi == st[NPsi(g.nd, d, sfx)] IN
                 Field(g, {}, LAMBDA i : Add(Scale(Pb(g, i, d), D1(g, w, i, d)),
                                             Scale(Pa(g, i, d), psi[i])))]),
        zeta |-> TLCEval([d \in 1..g.nd |-> LET zeta == st[NZeta(g.nd, d, sfx)] IN
                 Field(g, {}, LAMBDA i : Add(Scale(Pb(g, i, d), tmp[d][i]),
                                             Scale(Pa(g, i, d), zeta[i])))]) ]
DimOf(nd, n, NameOf(_)) == CHOOSE d \in 1..nd : NameOf(d) = n
ScalarPut(c, g, st, sfx, new) ==
  [n \in DOMAIN st |->
     IF n = NWf0(sfx) THEN new.w0
     ELSE IF n = NWfm(sfx) THEN st[NWf0(sfx)]
     ELSE IF \E d \in 1..g.nd : n = NPsi(g.nd, d, sfx)
     THEN new.psi[CHOOSE d \in 1..g.nd : n = NPsi(g.nd, d, sfx)]
     ELSE IF \E d \in 1..g.nd : n = NZeta(g.nd, d, sfx)
     THEN new.zeta[CHOOSE d \in 1..g.nd : n = NZeta(g.nd, d, sfx)]
     ELSE st[n]]
ScalarUpdate(c, g, m, st) ==
  LET tmp == ScalarTmp(g, st, "")
      lap == ScalarLap(g, st, "", tmp)
  IN  ScalarPut(c, g, st, "", ScalarNew(g, m, st, "", tmp, lap, LAMBDA i : Zero))
\* Born: the scattered field is driven by 2 v scatter dt^2 times the Laplacian
BornUpdate(c, g, m, st) ==
  LET tmp == ScalarTmp(g, st, "")
      lap == ScalarLap(g, st, "", tmp)
      tmps == ScalarTmp(g, st, "_sc")
      laps == ScalarLap(g, st, "_sc", tmps)
      new == ScalarNew(g, m, st, "", tmp, lap, LAMBDA i : Zero)
      news == ScalarNew(g, m, st, "_sc", tmps, laps, LAMBDA i : Mul(m.sdt2[i], lap[i]))
  IN  ScalarPut(c, g, ScalarPut(c, g, st, "", new), "_sc", news)

(* acoustic *)
AcousticUpdateV(c, g, m, st) ==
  LET p == st["pressure_0"]
      gp == TLCEval([d \in 1..g.nd |-> Field(g, {d}, LAMBDA i : Dh(g, p, i, d))])
      psi == TLCEval([d \in 1..g.nd |-> LET o == st[NPsiA(g.nd, d)] IN
               Field(g, {d}, LAMBDA i : Add(Scale(Pah(g, i, d), o[i]),
                                            Scale(Pbh(g, i, d), gp[d][i])))])
      v == TLCEval([d \in 1..g.nd |-> LET o == st[NV(g.nd, d)] IN
               Field(g, {d}, LAMBDA i :
                 Sub(o[i], Scale(c.dt, Mul(m.B[d][i], Add(gp[d][i], psi[d][i])))))])
  IN  [n \in DOMAIN st |->
         IF \E d \in 1..g.nd : n = NV(g.nd, d) THEN v[CHOOSE d \in 1..g.nd : n = NV(g.nd, d)]
         ELSE IF \E d \in 1..g.nd : n = NPsiA(g.nd, d)
         THEN psi[CHOOSE d \in 1..g.nd : n = NPsiA(g.nd, d)]
         ELSE st[n]]
AcousticUpdateP(c, g, m, st) ==
  LET dv == TLCEval([d \in 1..g.nd |-> LET v == st[NV(g.nd, d)] IN
               Field(g, {}, LAMBDA i : Ds(g, v, i, d))])
      phi == TLCEval([d \in 1..g.nd |-> LET o == st[NPhiA(g.nd, d)] IN
               Field(g, {}, LAMBDA i : Add(Scale(Pa(g, i, d), o[i]),
                                           Scale(Pb(g, i, d), dv[d][i])))])
      p == LET o == st["pressure_0"] IN
           Field(g, {}, LAMBDA i :
             LET T(d) == Add(dv[d][i], phi[d][i])
             IN  Sub(o[i], Scale(c.dt, Mul(m.K[i], SumD(T, g.nd)))))
  IN  [n \in DOMAIN st |->
         IF n = "pressure_0" THEN p
         ELSE IF \E d \in 1..g.nd : n = NPhiA(g.nd, d)
         THEN phi[CHOOSE d \in 1..g.nd : n = NPhiA(g.nd, d)]
         ELSE st[n]]

(* elastic *)
ElasticUpdateV(c, g, m, st) ==
  LET nd == g.nd
      \* derivative of sigma_ij along j at the points of v_i
      ds == TLCEval([i \in 1..nd |-> TLCEval([j \in 1..nd |->
              IF i = j
              THEN LET f == st[NSn(nd, i)] IN Field(g, {i}, LAMBDA k : Dh(g, f, k, i))
              ELSE LET f == st[NSs(nd, i, j)] IN Field(g, {i}, LAMBDA k : Ds(g, f, k, j))])])
      mem == TLCEval([i \in 1..nd |-> TLCEval([j \in 1..nd |->
              IF i = j
              THEN LET o == st[NMsn(nd, i)] IN
                   Field(g, {i}, LAMBDA k : Add(Scale(Pah(g, k, i), o[k]), Scale(Pbh(g, k, i), ds[i][i][k])))
              ELSE LET o == st[NMss(nd, i, j)] IN
                   Field(g, {i}, LAMBDA k : Add(Scale(Pa(g, k, j), o[k]), Scale(Pb(g, k, j), ds[i][j][k])))])])
      v == TLCEval([i \in 1..nd |-> LET o == st[NV(nd, i)] IN
              Field(g, {i}, LAMBDA k :
                LET T(j) == Add(ds[i][j][k], mem[i][j][k])
                IN  Add(o[k], Scale(c.dt, Mul(m.B[i][k], SumD(T, nd)))))])
  IN  [n \in DOMAIN st |->
         IF \E d \in 1..nd : n = NV(nd, d) THEN v[CHOOSE d \in 1..nd : n = NV(nd, d)]
         ELSE IF \E d \in 1..nd : n = NMsn(nd, d)
         THEN LET d == CHOOSE d \in 1..nd : n = NMsn(nd, d) IN mem[d][d]
         ELSE IF \E p \in Idx2(nd) : n = NMss(nd, p[1], p[2])
         THEN LET p == CHOOSE p \in Idx2(nd) : n = NMss(nd, p[1], p[2]) IN mem[p[1]][p[2]]
         ELSE st[n]]
ElasticUpdateS(c, g, m, st) ==
  LET nd == g.nd
      \* derivative of v_i along j at the points of sigma_ij
      dv == TLCEval([i \in 1..nd |-> TLCEval([j \in 1..nd |->
              LET f == st[NV(nd, i)] IN
              IF i = j THEN Field(g, {}, LAMBDA k : Ds(g, f, k, i))
              ELSE Field(g, {i, j}, LAMBDA k : Dh(g, f, k, j))])])
      mem == TLCEval([i \in 1..nd |-> TLCEval([j \in 1..nd |->
              LET o == st[NMv(nd, i, j)] IN
              IF i = j
              THEN Field(g, {}, LAMBDA k : Add(Scale(Pa(g, k, i), o[k]), Scale(Pb(g, k, i), dv[i][i][k])))
              ELSE Field(g, {i, j}, LAMBDA k : Add(Scale(Pah(g, k, j), o[k]), Scale(Pbh(g, k, j), dv[i][j][k])))])])
      e(i, j, k) == Add(dv[i][j][k], mem[i][j][k])
      tr == Field(g, {}, LAMBDA k : LET T(d) == e(d, d, k) IN SumD(T, nd))
      sn == TLCEval([d \in 1..nd |-> LET o == st[NSn(nd, d)] IN
              Field(g, {}, LAMBDA k :
                Add(o[k], Scale(c.dt, Add(Mul(m.lamb[k], tr[k]), Scale(2, Mul(m.mu[k], e(d, d, k)))))))])
      ss == TLCEval([i \in 1..nd |-> TLCEval([j \in 1..nd |->
              IF i < j
              THEN LET o == st[NSs(nd, i, j)] IN
                   Field(g, {i, j}, LAMBDA k :
                     Add(o[k], Scale(c.dt, Mul(MuS(m, i, j)[k], Add(e(i, j, k), e(j, i, k))))))
              ELSE <<>>])])
  IN  [n \in DOMAIN st |->
         IF \E d \in 1..nd : n = NSn(nd, d) THEN sn[CHOOSE d \in 1..nd : n = NSn(nd, d)]
         ELSE IF \E p \in Idx2(nd) : p[1] < p[2] /\ n = NSs(nd, p[1], p[2])
         THEN LET p == CHOOSE p \in Idx2(nd) : p[1] < p[2] /\ n = NSs(nd, p[1], p[2])
              IN ss[p[1]][p[2]]
         ELSE IF \E d \in 1..nd : n = NMv(nd, d, d)
         THEN LET d == CHOOSE d \in 1..nd : n = NMv(nd, d, d) IN mem[d][d]
         ELSE IF \E p \in Idx2(nd) : n = NMv(nd, p[1], p[2])
         THEN LET p == CHOOSE p \in Idx2(nd) : n = NMv(nd, p[1], p[2]) IN mem[p[1]][p[2]]
         ELSE st[n]]

--------------------------------------------------------------------------
(* Sources.  c.src[type][shot][k] is a location (sequence of coordinates,  *)
(* or <<>> if ignored), c.amp[type][shot][k][t] its amplitude.             *)
SrcCells(c, g, ty) ==
  {<<s, k>> \in (1..g.ns) \X (1..Len(c.src[ty][1])) : c.src[ty][s][k] # <<>>}
Inject(c, g, f, ty, t, W(_)) ==
  IF c.src[ty] = <<>> THEN f
  ELSE LET at == SrcCells(c, g, ty)
           cell(sk) == Loc(c, g, sk[1], c.src[ty][sk[1]][sk[2]])
           hit == {cell(sk) : sk \in at}
           Who(i) == {sk \in at : cell(sk) = i}
           Val(i) == LET sk == CHOOSE sk \in Who(i) : TRUE
                     IN  Mul(W(i), c.amp[ty][sk[1]][sk[2]][t + 1])
       IN  TLCEval([i \in 1..g.N |-> IF i \in hit THEN Add(f[i], Val(i)) ELSE f[i]])

Put(st, n, f) == [st EXCEPT ![n] = f]
RECURSIVE InjectEach(_, _, _, _, _, _)
InjectEach(c, g, m, st, t, d) ==   \* velocity sources of every dimension
  IF d > g.nd THEN st
  ELSE InjectEach(c, g, m,
         Put(st, NV(g.nd, d),
             Inject(c, g, st[NV(g.nd, d)], Dn(g.nd, d), t, LAMBDA i : Scale(c.dt, m.B[d][i]))),
         t, d + 1)
RECURSIVE InjectNormal(_, _, _, _, _)
InjectNormal(c, g, st, t, d) ==    \* pressure source into every normal stress
  IF d > g.nd THEN st
  ELSE InjectNormal(c, g,
         Put(st, NSn(g.nd, d),
             Inject(c, g, st[NSn(g.nd, d)], "p", t, LAMBDA i : Lift((-c.dt) % P))),
         t, d + 1)

Phases(kind) ==
  CASE kind = "scalar" -> <<"record", "update", "inject">>
    [] kind = "born" -> <<"record", "update", "inject">>
    [] kind \in {"acoustic", "elastic"} ->
         <<"record", "update_velocity", "inject_velocity", "update_stress", "inject_pressure">>

\* the state after phase ph of internal step t
Apply(c, g, m, st, ph, t) ==
  CASE ph = "record" -> st
    [] ph = "update" /\ c.kind = "scalar" -> ScalarUpdate(c, g, m, st)
    [] ph = "update" /\ c.kind = "born" -> BornUpdate(c, g, m, st)
    [] ph = "inject" ->
         LET w == Inject(c, g, st[NWf0("")], "p", t, LAMBDA i : Sub(Zero, m.v2dt2[i]))
             s1 == Put(st, NWf0(""), w)
         IN  IF c.kind = "scalar" THEN s1
             ELSE Put(s1, NWf0("_sc"),
                      Inject(c, g, st[NWf0("_sc")], "p", t, LAMBDA i : Sub(Zero, m.sdt2[i])))
    [] ph = "update_velocity" /\ c.kind = "acoustic" -> AcousticUpdateV(c, g, m, st)
    [] ph = "update_stress" /\ c.kind = "acoustic" -> AcousticUpdateP(c, g, m, st)
    [] ph = "update_velocity" /\ c.kind = "elastic" -> ElasticUpdateV(c, g, m, st)
    [] ph = "update_stress" /\ c.kind = "elastic" -> ElasticUpdateS(c, g, m, st)
    [] ph = "inject_velocity" -> InjectEach(c, g, m, st, t, 1)
    [] ph = "inject_pressure" /\ c.kind = "acoustic" ->
         Put(st, "pressure_0", Inject(c, g, st["pressure_0"], "p", t, LAMBDA i : Scale(c.dt, m.K[i])))
    [] ph = "inject_pressure" /\ c.kind = "elastic" -> InjectNormal(c, g, st, t, 1)

\* what a receiver of type ty in cell i holds
Sample(c, g, st, ty, i) ==
  CASE c.kind = "scalar" -> st[NWf0("")][i]
    [] c.kind = "born" /\ ty = "p" -> st[NWf0("")][i]
    [] c.kind = "born" /\ ty = "sc" -> st[NWf0("_sc")][i]
    [] c.kind = "acoustic" /\ ty = "p" -> st["pressure_0"][i]
    [] c.kind = "elastic" /\ ty = "p" ->
         LET T(d) == st[NSn(g.nd, d)][i] IN Scale(Rat(-1, g.nd), SumD(T, g.nd))
    [] OTHER -> st["v" \o ty \o "_0"][i]
=============================================================================
