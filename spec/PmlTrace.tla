------------------------------ MODULE PmlTrace ------------------------------
(***************************************************************************)
(* Judges recorded profiles, wavelets, conversions and absorption.         *)
(***************************************************************************)
EXTENDS Pml, Json, IOUtils
P == INSTANCE Propagators WITH K <- 1
VARIABLES ci, done
Cases == JsonDeserialize(IOEnv.CASES)
Tol == 40                                   \* of 2^15
RECURSIVE First(_, _)
First(f, i) == IF i > Len(f) THEN <<"ok">> ELSE IF f[i] # <<"ok">> THEN f[i] ELSE First(f, i + 1)

---------------------------------------------------------------- (* profiles *)
RECURSIVE SetMax(_)
SetMax(S) == LET x == CHOOSE x \in S : TRUE IN IF S = {x} THEN x ELSE LET y == SetMax(S \ {x}) IN IF x > y THEN x ELSE y
RECURSIVE Flat(_, _, _, _)
Flat(x, n, d, acc) == IF d > Len(n) THEN acc ELSE Flat(x, n, d + 1, acc * n[d] + x[d])
\* the active cells of a field shifted by half a cell in the dimensions hf
On(c, hf, x) == \A d \in 1..c.nd : x[d] >= 0 /\ x[d] < c.tr[d] - (IF d \in hf THEN 1 ELSE 0)
Expected(c, s0, al0, o, x) ==
  LET hf == P!HalfOf(c, o.name)
      d == P!MemOf(c, o.name)
      f == Depth(c.w[2 * d - 1], c.w[2 * d], c.tr[d], 2 * x[d] + (IF d \in hf THEN 1 ELSE 0))
  IN  IF ~On(c, hf, x) THEN 0
      ELSE IF o.k = "a" THEN ProfA(s0, al0, f)
      ELSE LET sh == P!HalfOf(c, o.src)
               at(y) == LET z == [x EXCEPT ![d] = y] IN IF On(c, sh, z) THEN c.F[1 + Flat(z, c.tr, 1, 0)] ELSE 0
               h == c.acc \div 2
               der == IF c.kind \in {"scalar", "born"} THEN D1At(h, at, x[d])
                      ELSE IF d \in hf THEN DhAt(h, at, x[d]) ELSE DsAt(h, at, x[d])
           IN  Rnd(ProfB(s0, al0, f) * der, 2048)
ObsBad(c, s0, al0, o) ==
  LET bad(i) == Abs(o.vals[i] - Expected(c, s0, al0, o, o.pts[i])) > Tol
  IN  IF \A i \in 1..Len(o.pts) : ~bad(i) THEN <<"ok">>
      ELSE LET i == CHOOSE i \in 1..Len(o.pts) : bad(i)
           IN  <<"profile", o.name, o.k, o.pts[i], o.vals[i], Expected(c, s0, al0, o, o.pts[i])>>
ProfilesBad(c) ==
  LET L == SetMax({c.w[i] * c.dx[(i + 1) \div 2] : i \in 1..(2 * c.nd)})
      s0 == TLCEval(Sigma0(c.vdt, L))
      al0 == TLCEval(Alpha0(c.fdt))
      mems == {s[1] : s \in {s \in P!Species(c) : s[3] # 0}}
  IN  IF {c.obs[i].name : i \in 1..Len(c.obs)} # mems THEN <<"memory-variables-missing">>
      ELSE First([i \in 1..Len(c.obs) |-> ObsBad(c, s0, al0, c.obs[i])], 1)

--------------------------------------------------------------- (* wavelets *)
\* sample i (from 0) lies i - half/2 samples from the peak
WaveletBad(c) ==
  IF c.dims # <<c.length>> THEN <<"length", c.dims, c.length>>
  ELSE IF ~c.dtype THEN <<"dtype">>
  ELSE LET e(i) == Ricker(2 * (i - 1) - c.half, 2 * c.m)
           bad == {i \in 1..c.length : Abs(c.y[i] - e(i)) > Tol}
       IN  IF bad = {} THEN <<"ok">> ELSE LET i == CHOOSE i \in bad : TRUE IN <<"wavelet", i, c.y[i], e(i)>>

------------------------------------------------------------ (* conversions *)
ConversionBad(c) ==
  LET bad(i) ==
        LET p == c.vp[i] s == c.vs[i] r == c.rho[i] IN
        IF c.lamb[i] # (p * p - 2 * s * s) * r THEN <<"lamb", p, s, r, c.lamb[i]>>
        ELSE IF c.mu[i] # s * s * r THEN <<"mu", p, s, r, c.mu[i]>>
        ELSE IF c.brho[i] # (IF r = 0 THEN 0 ELSE 1) THEN <<"buoyancy", p, s, r, c.brho[i]>>
        ELSE IF c.bz[i] # 0 THEN <<"buoyancy-of-zero", c.bz[i]>>
        \* and back; without density nothing can be recovered
        ELSE IF c.rho2[i] # r THEN <<"rho", p, s, r, c.rho2[i]>>
        ELSE IF c.vp2[i] # (IF r = 0 THEN 0 ELSE p) THEN <<"vp", p, s, r, c.vp2[i]>>
        ELSE IF c.vs2[i] # (IF r = 0 THEN 0 ELSE s) THEN <<"vs", p, s, r, c.vs2[i]>>
        ELSE <<"ok">>
  IN  First([i \in 1..Len(c.vp) |-> bad(i)], 1)

------------------------------------------------------------- (* absorption *)
\* at least ten PML cells: at most 3 % of the signal comes back
AbsorbBad(c) ==
  IF \A i \in 1..Len(c.errs) : c.errs[i] <= 30000 THEN <<"ok">> ELSE <<"reflections", c.errs>>

Bad(c) == IF c.error # "" THEN <<"error", c.error>>
          ELSE CASE c.what = "profiles" -> ProfilesBad(c)
                 [] c.what = "wavelet" -> WaveletBad(c)
                 [] c.what = "conversion" -> ConversionBad(c)
                 [] c.what = "absorb" -> AbsorbBad(c)
Init == ci \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED ci /\ LET c == Cases[ci] IN PrintT("VERDICT " \o ToJson([id |-> c.id, verdict |-> Bad(c)]))
Spec == Init /\ [][Next]_<<ci, done>>
=============================================================================
