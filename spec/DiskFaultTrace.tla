--------------------------- MODULE DiskFaultTrace ---------------------------
(***************************************************************************)
(* Judges recorded propagations with faults of DiskFaultHist:              *)
(* what ends without an exception is right (DiskFault's NeverWrong), an    *)
(* exception needs a fault that can have an effect (Quiet), a fault of the *)
(* forward pass is reported by the forward pass, and afterwards            *)
(* no files, open or left behind, remain and the next propagation is right.*)
(***************************************************************************)
EXTENDS DiskFaultHist, IOUtils
VARIABLES ci, bad
Cases == JsonDeserialize(IOEnv.CASES)
C == Cases[ci]
MaxDev(r) == IF r.single THEN 100000 ELSE 100           \* 1e-9 relative
Wrong(res) == {k \in 1..Len(res) : res[k].dev > MaxDev(res[k])}
Verdict(c) ==
  IF c.error # "" THEN <<"error", c.error>>
  ELSE IF c.raised = "" /\ Wrong(c.res) # {} THEN LET k == CHOOSE k \in Wrong(c.res) : TRUE IN <<"wrong-after-fault", c.res[k].what, c.res[k].dev>>
  ELSE IF c.raised # "" /\ ~\E i \in 1..Len(c.events) : Effective(c, i) THEN <<"raised-without-fault", c.raised>>
  ELSE IF c.stage # "fwd" /\ \E i \in 1..Len(c.events) : c.events[i].place = "fwd" /\ Effective(c, i) THEN <<"not-reported-by-the-forward-pass", c.raised>>
  ELSE IF c.dirs # 0 THEN <<"directory-left", c.raised>>
  ELSE IF c.fds # 0 THEN <<"open-file-left", c.raised>>
  ELSE IF c.again_raised # "" THEN <<"next-propagation-raised", c.again_raised>>
  ELSE IF Wrong(c.again) # {} THEN LET k == CHOOSE k \in Wrong(c.again) : TRUE IN <<"next-propagation-wrong", c.again[k].what, c.again[k].dev>>
  ELSE <<"ok">>
TInit == ci \in 1..Len(Cases) /\ bad = <<>> /\ HInit
TNext == /\ bad = <<>> /\ bad' = Verdict(C) /\ UNCHANGED <<ci, case, at, hist>>
         /\ PrintT("VERDICT " \o ToJson([id |-> C.id, verdict |-> bad', effective |-> \E i \in 1..Len(C.events) : Effective(C, i)]))
TSpec == TInit /\ [][TNext]_<<ci, bad, case, at, hist>>
=============================================================================
