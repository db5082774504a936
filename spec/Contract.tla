----------------------------- MODULE Contract -----------------------------
(***************************************************************************)
(* Which calls of a propagator are consistent.                             *)
(*                                                                         *)
(* A call c is described by what can be seen of its arguments:             *)
(*   kind, nd, py (Python backend)                                         *)
(*   models  <<[cls, dev, dt, size]>>, size with or without the shots      *)
(*   src     <<[amp, loc]>> per source type; rec <<loc>> per receiver type *)
(*           amp = [have, cls, dev, dt, size]                              *)
(*           loc = [have, cls, dev, ndim, last, count, frac, pts],         *)
(*           pts[shot][k] = cell; frac = "half" or "nan": one coordinate   *)
(*           is not an integer                                             *)
(*   wf      <<[have, cls, dev, dt, size]>> in documented order            *)
(*   s       the other arguments: [lit, v], a literal or (lit = "") a list *)
(*   extra   arguments given that the dimensions of the call do not have   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ign == -777                        \* IGNORE_LOCATION
None == -99                        \* None within a list
Stag(c) == c.kind \in {"acoustic", "elastic"}
Lit(x) == [lit |-> x, v |-> <<>>]
Lst(v) == [lit |-> "", v |-> v]

Good == [accuracy |-> {"2", "4", "6", "8"}, dt |-> {"0.001", "-0.001"},
         grid_spacing |-> {"5.0", "5"}, pml_width |-> {"0", "2"},
         pml_freq |-> {"None", "0.0", "25.0", "25"}, max_vel |-> {"None", "2000.0", "-2000.0", "1000"},
         survey_pad |-> {"None", "0", "1", "3"}, origin |-> {"None"}, nt |-> {"None"},
         model_gradient_sampling_interval |-> {"1", "2", "5"},
         freq_taper_frac |-> {"0.0", "0.5", "1.0", "0"}, time_pad_frac |-> {"0.0", "0.5", "1.0", "0"},
         callback_frequency |-> {"1", "2", "100"},
         storage_mode |-> {"'device'", "'cpu'", "'disk'", "'none'"}, storage_compression |-> {"False", "True"},
         forward_callback |-> {"None", "cb"}, backward_callback |-> {"None", "cb"},
         python_backend |-> {"False", "'eager'"}]
BadLits == [accuracy |-> {"3", "0", "-2", "10", "4.0", "None", "'4'"}, dt |-> {"0.0", "None", "'a'"},
         grid_spacing |-> {"0.0", "-5.0", "None", "'a'"}, pml_width |-> {"-1", "2.5", "None", "'a'"},
         pml_freq |-> {"-1.0", "'a'"}, max_vel |-> {"0.0", "'a'"},
         survey_pad |-> {"-1", "1.5", "'a'"}, origin |-> {}, nt |-> {"-1", "3.0", "'a'"},
         model_gradient_sampling_interval |-> {"-1", "1.0", "'a'", "0", "None"},
         freq_taper_frac |-> {"-0.1", "1.1", "'a'", "None"}, time_pad_frac |-> {"-0.1", "1.1", "'a'", "None"},
         callback_frequency |-> {"0", "-1", "1.0", "'a'", "None"},
         storage_mode |-> {"'foo'", "None", "''", "1"}, storage_compression |-> {},
         forward_callback |-> {"3"}, backward_callback |-> {}, python_backend |-> {"'foo'", "3"}]
Args == DOMAIN Good

Have(q) == {i \in 1..Len(q) : q[i].have}
Locs(c) == {c.src[i].loc : i \in {i \in 1..Len(c.src) : c.src[i].loc.have}} \cup {c.rec[i] : i \in Have(c.rec)}
Amps(c) == {c.src[i].amp : i \in {i \in 1..Len(c.src) : c.src[i].amp.have}}
Wfs(c) == {c.wf[i] : i \in Have(c.wf)}
Dense(c) == {c.models[i] : i \in 1..Len(c.models)} \cup Amps(c) \cup Wfs(c)

Pad(c) == IF c.s.pml_width.lit = "" THEN c.s.pml_width.v
          ELSE [i \in 1..(2 * c.nd) |-> IF c.s.pml_width.lit = "2" THEN 2 ELSE 0]
N(c) == LET z == c.models[1].size IN SubSeq(z, Len(z) - c.nd + 1, Len(z))
NtOf(a) == a.size[3]

--------------------------------------------------------------------------
\* faults of single arguments; the consistency of the rest is only defined without them
Single(c) ==
  {<<"literal", a>> : a \in {a \in Args : c.s[a].lit # "" /\ c.s[a].lit \notin Good[a]}}
  \cup (IF c.s.grid_spacing.lit = "" /\ ~(Len(c.s.grid_spacing.v) = c.nd /\ \A i \in 1..Len(c.s.grid_spacing.v) : c.s.grid_spacing.v[i] > 0)
        THEN {<<"grid_spacing">>} ELSE {})
  \cup (IF c.s.pml_width.lit = "" /\ ~(Len(c.s.pml_width.v) = 2 * c.nd /\ \A i \in 1..Len(c.s.pml_width.v) : c.s.pml_width.v[i] >= 0)
        THEN {<<"pml_width">>} ELSE {})
  \cup (IF c.s.survey_pad.lit = "" /\ ~(Len(c.s.survey_pad.v) = 2 * c.nd /\
             \A i \in 1..Len(c.s.survey_pad.v) : c.s.survey_pad.v[i] = None \/ c.s.survey_pad.v[i] >= 0)
        THEN {<<"survey_pad">>} ELSE {})
  \cup (IF c.s.origin.lit = "" /\ ~(Len(c.s.origin.v) = c.nd /\ \A i \in 1..Len(c.s.origin.v) : c.s.origin.v[i] >= 0)
        THEN {<<"origin">>} ELSE {})
  \cup (IF c.s.survey_pad # Lit("None") /\ c.s.origin # Lit("None") THEN {<<"survey_pad and origin">>} ELSE {})
  \cup (IF \E t \in Dense(c) \cup Locs(c) : t.cls # "tensor" THEN {<<"not a tensor">>} ELSE {})
  \cup (IF \E t \in Dense(c) \cup Locs(c) : t.dev # "cpu" THEN {<<"device">>} ELSE {})
  \cup (IF \E t, u \in Dense(c) : t.dt # u.dt THEN {<<"dtype">>} ELSE {})
  \cup (IF \E i \in 1..Len(c.models) : Len(c.models[i].size) \notin {c.nd, c.nd + 1} THEN {<<"model dimensions">>} ELSE {})
  \cup (IF \E w \in Wfs(c) : Len(w.size) # c.nd + 1 THEN {<<"wavefield dimensions">>} ELSE {})
  \cup (IF \E a \in Amps(c) : Len(a.size) # 3 THEN {<<"amplitude dimensions">>} ELSE {})
  \cup (IF \E l \in Locs(c) : l.ndim # 3 \/ l.last # c.nd THEN {<<"location dimensions">>} ELSE {})
  \cup (IF \E l \in Locs(c) : l.frac # "" THEN {<<"fractional location">>} ELSE {})
  \cup {<<"dimension", e>> : e \in c.extra}
  \cup (IF \E i \in 1..Len(c.src) : c.src[i].amp.have # c.src[i].loc.have THEN {<<"amplitudes or locations missing">>} ELSE {})
  \cup (IF {i \in 1..Len(c.src) : c.src[i].loc.have} = {} /\ Have(c.wf) = {} THEN {<<"nothing to propagate">>} ELSE {})
  \cup (IF c.py /\ (c.s.backward_callback.lit # "None" \/ c.s.storage_mode.lit # "'device'" \/ c.s.storage_compression.lit # "False")
        THEN {<<"not supported by the Python backend">>} ELSE {})

\* the number of shots and of time steps
Shots(c) == {Len(l.pts) : l \in Locs(c)} \cup {t.size[1] : t \in Amps(c) \cup Wfs(c)}
Batches(c) == {c.models[i].size[1] : i \in {i \in 1..Len(c.models) : Len(c.models[i].size) = c.nd + 1}}
Sizes(c) ==
  (IF Cardinality(Shots(c)) > 1 THEN {<<"shots">>} ELSE {})
  \cup (IF \E b \in Batches(c) : b # 1 /\ \E s \in Shots(c) : b # s THEN {<<"shots of a model">>} ELSE {})
  \cup (IF \E i \in 1..Len(c.src) : c.src[i].amp.have /\ c.src[i].loc.have /\ c.src[i].amp.size[2] # c.src[i].loc.count
        THEN {<<"sources per shot">>} ELSE {})
  \cup (IF \E a, b \in Amps(c) : NtOf(a) # NtOf(b) THEN {<<"time samples">>} ELSE {})
  \cup (IF c.s.nt.lit = "None" /\ Amps(c) = {} THEN {<<"no number of time steps">>} ELSE {})
  \cup (IF c.s.nt.lit = "" /\ \E a \in Amps(c) : NtOf(a) # c.s.nt.v[1] THEN {<<"nt">>} ELSE {})
  \cup (IF \E i \in 1..Len(c.models) : LET z == c.models[i].size IN SubSeq(z, Len(z) - c.nd + 1, Len(z)) # N(c)
        THEN {<<"model shapes">>} ELSE {})
  \cup (IF \E v, w \in Wfs(c) : v.size # w.size THEN {<<"wavefield shapes">>} ELSE {})

--------------------------------------------------------------------------
\* where the locations are, and the simulated region
Ignored(p) == \A d \in 1..Len(p) : p[d] = Ign
Active(l) == UNION {{l.pts[s][k] : k \in 1..Len(l.pts[s])} : s \in 1..Len(l.pts)} \ {p \in UNION {{l.pts[s][k] : k \in 1..Len(l.pts[s])} : s \in 1..Len(l.pts)} : Ignored(p)}
AllActive(c) == UNION {Active(l) : l \in Locs(c)}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
SurveyPad(c, i) == IF c.s.survey_pad.lit = "" THEN c.s.survey_pad.v[i]
                   ELSE CASE c.s.survey_pad.lit = "None" -> None [] c.s.survey_pad.lit = "0" -> 0
                          [] c.s.survey_pad.lit = "1" -> 1 [] c.s.survey_pad.lit = "3" -> 3
FromWf(c) == c.s.survey_pad = Lit("None") /\ Have(c.wf) # {}
FirstWf(c) == c.wf[Least(Have(c.wf))]
Org(c, d) == IF c.s.origin.lit = "" THEN c.s.origin.v[d] ELSE 0
Beg(c, d) == IF FromWf(c) THEN Org(c, d)
             ELSE LET p == SurveyPad(c, 2 * d - 1) IN
                  IF p = None \/ AllActive(c) = {} THEN 0
                  ELSE LET x == Least({q[d] : q \in AllActive(c)}) - p IN IF x < 0 THEN 0 ELSE x
End(c, d) == IF FromWf(c) THEN Org(c, d) + FirstWf(c).size[d + 1] - Pad(c)[2 * d - 1] - Pad(c)[2 * d]
             ELSE LET p == SurveyPad(c, 2 * d) IN
                  IF p = None \/ AllActive(c) = {} THEN N(c)[d]
                  ELSE LET x == Most({q[d] : q \in AllActive(c)}) + p + 1 IN IF x > N(c)[d] THEN N(c)[d] ELSE x
Inside(c) == \A p \in AllActive(c) : \A d \in 1..c.nd : p[d] >= 0 /\ p[d] < N(c)[d]
Places(c) ==
  IF ~Inside(c) THEN {<<"location outside the model">>}
  ELSE
  (IF \E d \in 1..c.nd : Beg(c, d) >= End(c, d) \/ End(c, d) > N(c)[d] THEN {<<"region">>} ELSE {})
  \cup (IF \E p \in AllActive(c) : \E d \in 1..c.nd : p[d] < Beg(c, d) \/ p[d] >= End(c, d) THEN {<<"location outside the region">>} ELSE {})
  \cup (IF \E w \in Wfs(c) : \E d \in 1..c.nd : w.size[d + 1] # End(c, d) - Beg(c, d) + Pad(c)[2 * d - 1] + Pad(c)[2 * d]
        THEN {<<"wavefield shape">>} ELSE {})
  \cup (IF \E l \in Locs(c) : \E s \in 1..Len(l.pts) : \E j, k \in 1..Len(l.pts[s]) :
             j # k /\ ~Ignored(l.pts[s][j]) /\ l.pts[s][j] = l.pts[s][k]
        THEN {<<"location used twice">>} ELSE {})
  \* forces and velocities lie half a cell on: the last cell has none
  \cup (IF Stag(c) /\ \E d \in 1..c.nd : \E l \in {c.src[d + 1].loc, c.rec[d + 1]} : l.have /\ \E p \in Active(l) : p[d] >= N(c)[d] - 1
        THEN {<<"location on the last cell">>} ELSE {})

Faults(c) == LET a == Single(c) IN IF a # {} THEN a
             ELSE LET b == Sizes(c) IN IF b # {} THEN b ELSE Places(c)
=============================================================================
