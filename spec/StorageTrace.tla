---------------------------- MODULE StorageTrace ----------------------------
(***************************************************************************)
(* Checks recorded histories: every call was possible in StorageHist, its  *)
(* results equal the same call's without anything else alive and with the  *)
(* snapshots kept in memory (dev: 1e-9 relative), compression moves model  *)
(* gradients by no more than quantisation can (q), and directories exist   *)
(* only for live propagations that store on disk.                          *)
(***************************************************************************)
EXTENDS StorageHist, IOUtils
VARIABLES ci, bad
tvars == <<slot, hist, ci, bad>>
Cases == JsonDeserialize(IOEnv.CASES)
C == Cases[ci]
MaxDev(r) == IF r.single THEN 100000 ELSE 100           \* 1e-4, 1e-7
\* a single stored value shows half a level of 127, a sum of products of many more
MaxQuant(e) == IF e.op = "compress" THEN 20000000 ELSE 100000000
TInit == ci \in 1..Len(Cases) /\ bad = <<>> /\ Init
SetOf(q) == {q[i] : i \in 1..Len(q)}
ResBad(e) ==
  LET w == {k \in 1..Len(e.res) : e.res[k].dev > MaxDev(e.res[k])}
      z == {k \in 1..Len(e.res) : e.res[k].q > MaxQuant(e)}
      k1 == CHOOSE k \in w : TRUE
      k2 == CHOOSE k \in z : TRUE
  IN  IF w # {} THEN <<"differs", e.op, e.kind, e.mode, e.res[k1].what, e.res[k1].dev>>
      ELSE IF z # {} THEN <<"compression-error", e.kind, e.mode, e.res[k2].what, e.res[k2].q>>
      ELSE <<>>
EventBad(e, sl) ==
  IF e.op # "compress" /\ ~Enabled(slot, e) THEN <<"generator", e.op>>
  ELSE IF e.raised # "" /\ ~(e.raised = "Boom" /\ e.op \in {"forward_raises", "backward_raises"})
  THEN <<"raised", e.op, e.kind, e.mode, e.raised>>
  ELSE IF ResBad(e) # <<>> THEN ResBad(e)
  ELSE IF ~(SetOf(e.dirs) \subseteq DiskSlots(sl)) THEN <<"directory-of-no-live-propagation", e.op, e.mode, e.dirs>>
  ELSE <<>>
EndBad == IF C.left # <<>> THEN <<"directory-left", C.left[1]>>
          ELSE IF ~C.kept THEN <<"touched-a-foreign-file">>
          ELSE IF C.stray # <<>> THEN <<"file-outside", C.stray[1]>>
          ELSE <<"ok">>
Stop(b) == bad' = b /\ PrintT("VERDICT " \o ToJson([id |-> C.id, verdict |-> b, seen |-> Len(hist)]))
TNext ==
  /\ bad = <<>> /\ UNCHANGED ci
  /\ IF C.error # "" THEN Stop(<<"error", C.error>>) /\ UNCHANGED <<slot, hist>>
     ELSE IF Len(hist) = Len(C.events) THEN Stop(EndBad) /\ UNCHANGED <<slot, hist>>
     ELSE LET e == C.events[Len(hist) + 1]
              sl == Apply(slot, e)
              b == EventBad(e, sl)
          IN  /\ IF b = <<>> THEN UNCHANGED bad ELSE Stop(b)
              /\ slot' = sl /\ hist' = Append(hist, [op |-> e.op])
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
