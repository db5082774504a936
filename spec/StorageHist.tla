---------------------------- MODULE StorageHist ----------------------------
(***************************************************************************)
(* Histories of several live propagations at the level of a user's calls,  *)
(* for replay on the implementation (simulation prints one per behaviour), *)
(* and the expected observations of each call.                             *)
(*                                                                         *)
(* slot[s]: what the slot's graph can still be asked for.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, MaxLen
VARIABLES slot, hist
vars == <<slot, hist>>
Modes == {"device", "cpu", "disk", "none", "devicec", "cpuc", "diskc"}
Kinds == {"scalar", "born", "acoustic", "elastic"}
OnDisk(m) == m \in {"disk", "diskc"}
Empty == [live |-> FALSE, kind |-> "", mode |-> ""]
Init == slot = [s \in Slots |-> Empty] /\ hist = <<>>

Enabled(sl, e) ==
  CASE e.op \in {"forward", "forward_raises", "nested"} -> ~sl[e.s].live
    [] e.op \in {"backward", "backward_raises"} -> sl[e.s].live
    [] e.op = "double" -> sl[e.s].live /\ sl[e.s].kind = "scalar" /\ sl[e.s].mode \in {"device", "cpu", "disk"}
    [] e.op = "release" -> sl[e.s].live
    \* a child of the process drops all that it inherited and ends; the process moves to another working directory
    [] e.op \in {"fork", "chdir"} -> TRUE
    [] e.op = "both" -> e.s # e.s2 /\ sl[e.s].live /\ sl[e.s2].live
Apply(sl, e) ==
  CASE e.op \in {"forward", "nested"} -> [sl EXCEPT ![e.s] = [live |-> TRUE, kind |-> e.kind, mode |-> e.mode]]
    [] e.op = "release" -> [sl EXCEPT ![e.s] = Empty]
    [] OTHER -> sl
\* slots that may own a directory
DiskSlots(sl) == {s \in DOMAIN sl : sl[s].live /\ OnDisk(sl[s].mode)}

E(op, s) == [op |-> op, s |-> s, kind |-> slot[s].kind, mode |-> slot[s].mode, s2 |-> s]
Do(e) == Len(hist) < MaxLen /\ Enabled(slot, e) /\ hist' = Append(hist, e) /\ slot' = Apply(slot, e)
Starts(s) == \E op \in {"forward", "nested", "forward_raises"} : \E k \in Kinds : \E m \in Modes :
               Do([op |-> op, s |-> s, kind |-> k, mode |-> m, s2 |-> s])
Backs(s) == Do(E("backward", s)) \/ Do(E("double", s))
Next == \E s \in Slots :
          \/ Starts(s)
          \/ Backs(s)
          \/ Do(E("backward_raises", s))
          \/ Do(E("release", s))
          \/ slot[s].live /\ (Do(E("fork", s)) \/ Do(E("chdir", s)))
          \/ \E s2 \in Slots : Do([E("both", s) EXCEPT !.s2 = s2])
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = MaxLen => PrintT("HIST " \o ToJson(hist))
=============================================================================
