--------------------------- MODULE ResampleTrace ---------------------------
(***************************************************************************)
(* Judges recorded time step choices, resampled series and coarse/fine     *)
(* propagations against Resample.                                          *)
(***************************************************************************)
EXTENDS Resample, Json, IOUtils
VARIABLES ci, done
Cases == JsonDeserialize(IOEnv.CASES)
C == Cases[ci]
Tol == 24                \* of 2^14
MaxDev == 100            \* 1e-7
RECURSIVE First(_, _)
First(f, i) == IF i > Len(f) THEN <<"ok">> ELSE IF f[i] # <<"ok">> THEN f[i] ELSE First(f, i + 1)
Vmax(c) == IF c.maxvel > 0 THEN c.maxvel ELSE CHOOSE m \in {c.speeds[i] : i \in 1..Len(c.speeds)} : \A i \in 1..Len(c.speeds) : c.speeds[i] <= m
CflBad(c) ==
  LET d == [a |-> c.a, den |-> c.den, dx |-> c.dx, v |-> Vmax(c)]
  IN  IF ~StepRatioOk(d, c.r) THEN <<"step-ratio", c.r, Need(d), Have(d, 1)>>
      ELSE IF c.quotient # c.r * 1000000 THEN <<"inner-dt", c.r, c.quotient>>   \* dt/inner dt in 1e-6
      ELSE <<"ok">>
CountBad(c) == IF \E i \in 1..Len(c.counts) : c.counts[i] # c.nt THEN <<"samples", c.nt, c.counts>>
               ELSE IF c.calls # c.nt THEN <<"callbacks", c.nt, c.r, c.calls>> ELSE <<"ok">>
SeriesBad(c, s) ==
  LET e == IF s.op = "up" THEN UpError(c, s.x, s.y, c.r) ELSE DownError(c, s.x, s.y, c.r)
  IN  IF c.r = 1 /\ ~s.exact /\ ~(s.op = "down" /\ c.sh # 0) THEN <<"changed-without-substeps", s.op>>
      ELSE IF e > Tol THEN <<"resampled", s.op, s.what, e>> ELSE <<"ok">>
Bad == IF C.error # "" THEN <<"error", C.error>>
       ELSE LET a == IF C.cfl THEN CflBad(C) ELSE <<"ok">>
                b == IF C.counted THEN CountBad(C) ELSE <<"ok">>
                d == IF \E i \in 1..Len(C.devs) : C.devs[i].dev > MaxDev
                     THEN LET i == CHOOSE i \in 1..Len(C.devs) : C.devs[i].dev > MaxDev IN <<"differs", C.devs[i].what, C.devs[i].dev>>
                     ELSE <<"ok">>
            IN  IF a # <<"ok">> THEN a ELSE IF b # <<"ok">> THEN b ELSE IF d # <<"ok">> THEN d
                ELSE First([i \in 1..Len(C.series) |-> SeriesBad(C, C.series[i])], 1)
Worst2 == LET e == {IF C.series[i].op = "up" THEN UpError(C, C.series[i].x, C.series[i].y, C.r)
                    ELSE DownError(C, C.series[i].x, C.series[i].y, C.r) : i \in 1..Len(C.series)} \cup {0}
          IN CHOOSE m \in e : \A x \in e : x <= m
Init == ci \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED ci
        /\ PrintT("VERDICT " \o ToJson([id |-> C.id, verdict |-> Bad, worst |-> IF C.error = "" THEN Worst2 ELSE 0]))
Spec == Init /\ [][Next]_<<ci, done>>
=============================================================================
