----------------------------- MODULE EquivTrace -----------------------------
(***************************************************************************)
(* Checks recorded walks: every call made means what the first one of its  *)
(* walk means (Equiv), raises nothing, returns what it must, and nothing   *)
(* it returns is further from the first call's than rounding explains.     *)
(* Distances are relative to the largest magnitude, in units of 1e-10.     *)
(***************************************************************************)
EXTENDS Equiv, IOUtils
VARIABLES ci, bad
tvars == <<b, c, k, ci, bad>>
Cases == JsonDeserialize(IOEnv.CASES)
C == Cases[ci]
SetOf(q) == {q[i] : i \in 1..Len(q)}
NFields(x) == CASE x.kind = "scalar" -> 2 + 2 * x.nd [] x.kind = "born" -> 4 + 4 * x.nd [] x.kind = "acoustic" -> 1 + 3 * x.nd
                [] x.kind = "elastic" -> CASE x.nd = 1 -> 4 [] x.nd = 2 -> 13 [] x.nd = 3 -> 27
\* how often the callback is called: its steps are sampling intervals of q time steps
Seen(x) == IF x.cb THEN Cardinality({t \in 0..((x.nt + x.q - 1) \div x.q - 1) : t % x.cf = 0}) ELSE 0
\* a backward callback is only supported by the compiled backend
Backward(x, y) == x.bcb /\ Compiled(y) /\ IF SetOf(y.noted) = {"amp"} THEN \E t \in DOMAIN x.src : x.src[t] > 0 ELSE SetOf(y.noted) # {}
SeenBack(x, y) == IF Backward(x, y) THEN ((x.nt + x.q - 1) \div x.q + x.cf - 1) \div x.cf ELSE 0
Types(x) == {"p", "sc", "z", "y", "x"} \cap DOMAIN x.rec
Recorded(x) == {t \in Types(x) : x.rec[t] > 0}
Differentiated(x, y) ==
  (IF "models" \in SetOf(y.noted) THEN {"grad/model/" \o m : m \in Models(x.kind)} ELSE {})
  \cup (IF "amp" \in SetOf(y.noted) THEN {"grad/amp/" \o t : t \in {t \in DOMAIN x.src : x.src[t] > 0}} ELSE {})
Needed(x, y) == {"rec/" \o t : t \in Recorded(x)} \cup {"ign/" \o t : t \in Recorded(x)}
                \cup {"norec/" \o t : t \in Types(x) \ Recorded(x)} \cup Differentiated(x, y)
\* observations are numbered from the start of each piece, and a part is not the whole
Whole(y) == Len(y.pieces) = 1 /\ y.parts = 1 /\ y.delay = 0
Comparable(y, o) == /\ o.part \in {"cb", "bcb"} => Whole(y)
                    /\ o.part \in {"model", "bcb"} => ~y.compress      \* S01 bounds what compression does
Tol(y, ref) == IF y.prec = "double" /\ ref.prec = "double" THEN 100 ELSE 10000000
Outs == SetOf(C.calls[k].outs)
CallBad ==
  LET r == C.calls[k]
      ref == C.calls[1].c
      keys == {o.key : o \in Outs}
      far == {o \in Outs : Comparable(c, o) /\ o.d > Tol(c, ref)}
      f == CHOOSE o \in far : TRUE
      part(q) == {o \in Outs : o.part = q}
  IN  IF Meaning(b, c) # Meaning(b, ref) THEN <<"generator", k>>
      ELSE IF r.error # "" THEN <<"raised", r.error>>
      ELSE IF ~(Needed(b, c) \subseteq keys) THEN <<"missing", CHOOSE x \in Needed(b, c) \ keys : TRUE>>
      ELSE IF Cardinality(part("fin")) # NFields(b) THEN <<"wavefields", Cardinality(part("fin"))>>
      ELSE IF Whole(c) /\ Cardinality(part("cb")) # 2 * NFields(b) * Seen(b) THEN <<"observations", Cardinality(part("cb"))>>
      ELSE IF Whole(c) /\ Cardinality(part("bcb")) \notin {NFields(b) * SeenBack(b, c)} \cup (IF b.kind = "born" THEN {(NFields(b) \div 2) * SeenBack(b, c)} ELSE {}) THEN <<"observations backward", Cardinality(part("bcb"))>>
      ELSE IF far # {} THEN <<"differs", f.key, f.d>>
      ELSE <<>>
TInit == ci \in 1..Len(Cases) /\ bad = <<>> /\ k = 0 /\ b = C.b /\ c = C.calls[1].c
Stop(v) == bad' = v /\ PrintT("VERDICT " \o ToJson([id |-> C.id, verdict |-> v, seen |-> k]))
TNext ==
  /\ bad = <<>> /\ UNCHANGED <<ci, b>>
  /\ IF k = 0 THEN k' = 1 /\ UNCHANGED <<c, bad>>
     ELSE LET v == CallBad IN
          IF v # <<>> THEN Stop(v) /\ UNCHANGED <<c, k>>
          ELSE IF k = Len(C.calls) THEN Stop(<<"ok">>) /\ UNCHANGED <<c, k>>
          ELSE c' = C.calls[k + 1].c /\ k' = k + 1 /\ UNCHANGED bad
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
