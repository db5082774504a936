-------------------------------- MODULE Warn --------------------------------
(***************************************************************************)
(* Which doubtful parameters of a call a user is warned about.             *)
(*                                                                         *)
(* A call in whole numbers: speeds are 100 w, spacings 10 c, the time step *)
(* sign a / den, pml_freq an integer (-1: not given), max_vel 100 mv (0:   *)
(* not given).  TLC enumerates all calls of the lists below and prints     *)
(* them with the number of warnings that have to come, as a range: an      *)
(* equality may be rounded either way, and the Nyquist frequency is that   *)
(* of the user's time step or of the internal one.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, Thin
VARIABLES call
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
Abs(x) == IF x < 0 THEN -x ELSE x

\* lists of speeds found in the model (elastic: vp and vs of each cell)
Models(k) == IF k = "elastic" THEN {<<<<0, 0>>>>, <<<<20, 10>>>>, <<<<15, 0>>, <<30, 12>>>>, <<<<20, 5>>, <<0, 0>>>>, <<<<12, 0>>>>}
             ELSE {<<<<0, 0>>>>, <<<<20, 0>>>>, <<<<15, 0>>, <<30, 0>>>>, <<<<0, 0>>, <<12, 0>>>>, <<<<-25, 0>>, <<16, 0>>>>}
Speeds(m) == {Abs(m[i][j]) : i \in 1..Len(m), j \in 1..2}
MaxW(m) == SetMax(Speeds(m))
MinW(m) == LET s == Speeds(m) \ {0} IN IF s = {} THEN 0 ELSE SetMin(s)
Spacings(nd) == IF nd = 1 THEN {<<1>>, <<3>>} ELSE IF nd = 2 THEN {<<1, 1>>, <<1, 2>>, <<3, 1>>} ELSE {<<1, 2, 1>>, <<1, 1, 3>>, <<3, 1, 2>>}
Steps == {<<1, 200>>, <<1, 40>>, <<1, 12>>, <<1, 5>>}     \* a, den
Freqs == {-1, 0, 2, 7, 13, 25, 26, 45, 151, 600}
MaxVels == {0, 11, 20, 29, 30, 40}

VARIABLES stage
wvars == <<call, stage>>
Init == stage = 1 /\ call \in [kind : Kinds, nd : 1..3, wave : {0, 1, 2}]     \* no wavefield, with origin, without
Pick == /\ stage = 1 /\ stage' = 2
        /\ \E m \in Models(call.kind) : \E dx \in Spacings(call.nd) : \E st \in Steps : \E f \in Freqs : \E mv \in MaxVels :
             /\ MaxW(m) > 0 \/ mv > 0
             /\ (MaxW(m) + 3 * dx[1] + st[2] + f + mv + call.nd + call.wave) % Thin = 0
             /\ call' = [kind |-> call.kind, nd |-> call.nd, wave |-> call.wave, model |-> m, dx |-> dx,
                         a |-> (IF (f + mv + st[2]) % 3 = 0 THEN -st[1] ELSE st[1]), den |-> st[2], f |-> f, mv |-> mv]
Spec == Init /\ [][Pick]_wvars

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
\* (|dt| v / 0.6)^2 sum 1/dx^2 <= r^2, times (9 den)^2
LHS(c) == LET w == IF c.mv > 0 THEN c.mv ELSE MaxW(c.model)
          IN  (25 * w * Abs(c.a)) * (25 * w * Abs(c.a)) * Sum([i \in 1..c.nd |-> (6 \div c.dx[i]) * (6 \div c.dx[i])])
RHS(c, r) == 81 * (r * c.den) * (r * c.den)
Ratio(c) == CHOOSE r \in 1..400 : LHS(c) <= RHS(c, r) /\ (r = 1 \/ LHS(c) > RHS(c, r - 1))
\* each: <<certainly, possibly>>
Cond(sure, maybe) == <<IF sure THEN 1 ELSE 0, IF sure \/ maybe THEN 1 ELSE 0>>
F(c) == IF c.f < 0 THEN 25 ELSE c.f
Widest(c) == SetMax({c.dx[i] : i \in 1..c.nd})
Conditions(c) ==
  <<Cond(c.f < 0, FALSE),                                                              \* pml_freq not given
    Cond(2 * F(c) * Abs(c.a) > c.den * Ratio(c), 2 * F(c) * Abs(c.a) >= c.den),         \* above the Nyquist frequency
    Cond(c.mv > 0 /\ c.mv < MaxW(c.model), FALSE),                                      \* max_vel below the speeds of the model
    Cond(MinW(c.model) = 0, FALSE),                                                     \* nothing to say about wavelengths
    Cond(MinW(c.model) > 0 /\ 10 * MinW(c.model) < 6 * F(c) * Widest(c),
         MinW(c.model) > 0 /\ 10 * MinW(c.model) = 6 * F(c) * Widest(c)),               \* under six cells per wavelength
    Cond(LHS(c) > RHS(c, 19), LHS(c) = RHS(c, 19)),                                     \* twenty internal steps or more
    Cond(c.wave = 2, FALSE)>>                                                           \* place of the wavefields not given
Total(c, k) == Sum([i \in 1..7 |-> Conditions(c)[i][k]])
Emit == stage = 2 => PrintT("HIST " \o ToJson(call @@ [least |-> Total(call, 1), most |-> Total(call, 2), r |-> Ratio(call),
                                                       which |-> Conditions(call)]))
=============================================================================
