------------------------------ MODULE Storage ------------------------------
(***************************************************************************)
(* Snapshot storage, step by step: several propagations, each with its own *)
(* store, run forward and backward passes interleaved in any way (nested   *)
(* in callbacks, in threads, one after the other).                         *)
(*                                                                         *)
(* A store is a sequence of snapshots; a snapshot is a token naming the    *)
(* run and step it belongs to.  Disk stores live in directories.  With     *)
(* Shared = TRUE every disk run uses the same directory (a control: the    *)
(* invariant NeverMixed then fails).                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Slots, Nt, MaxGen, Modes, Shared
VARIABLES run,    \* slot -> what it is doing
          files,  \* directory -> sequence of snapshots
          mem     \* slot -> sequence of snapshots kept in memory
vars == <<run, files, mem>>

Idle == [ph |-> "none", mode |-> "device", gen |-> 0, t |-> 0, dir |-> <<>>, read |-> <<>>]
DirOf(s, g) == IF Shared THEN <<"shared">> ELSE <<s, g>>
Init == /\ run = [s \in Slots |-> Idle]
        /\ files = [d \in {} |-> <<>>]
        /\ mem = [s \in Slots |-> <<>>]

Token(s) == <<s, run[s].gen, run[s].t>>
Begin(s, m) ==
  /\ run[s].ph = "none" /\ run[s].gen < MaxGen
  /\ LET g == run[s].gen + 1
         d == IF m = "disk" THEN DirOf(s, g) ELSE <<>>
     IN  /\ run' = [run EXCEPT ![s] = [ph |-> "fwd", mode |-> m, gen |-> g, t |-> 0, dir |-> d, read |-> <<>>]]
         /\ files' = IF m = "disk" THEN [x \in DOMAIN files \cup {d} |-> IF x \in DOMAIN files THEN files[x] ELSE <<>>]
                     ELSE files
         /\ mem' = [mem EXCEPT ![s] = <<>>]
Step(s) ==
  /\ run[s].ph = "fwd" /\ run[s].t < Nt
  /\ CASE run[s].mode = "disk" -> files' = [files EXCEPT ![run[s].dir] = Append(@, Token(s))] /\ UNCHANGED mem
       [] run[s].mode = "device" -> mem' = [mem EXCEPT ![s] = Append(@, Token(s))] /\ UNCHANGED files
       [] OTHER -> UNCHANGED <<files, mem>>
  /\ run' = [run EXCEPT ![s].t = @ + 1, ![s].ph = IF run[s].t + 1 = Nt THEN "ready" ELSE "fwd"]
BeginBack(s) ==
  /\ run[s].ph = "ready"
  /\ run' = [run EXCEPT ![s].ph = "bwd", ![s].t = Nt, ![s].read = <<>>]
  /\ UNCHANGED <<files, mem>>
StepBack(s) ==
  /\ run[s].ph = "bwd" /\ run[s].t > 0
  /\ LET k == run[s].t
         x == CASE run[s].mode = "disk" -> files[run[s].dir][k]
                [] run[s].mode = "device" -> mem[s][k]
                [] OTHER -> <<"nothing">>
     IN  run' = [run EXCEPT ![s].t = k - 1, ![s].read = Append(@, x),
                            ![s].ph = IF k = 1 THEN "ready" ELSE "bwd"]
  /\ UNCHANGED <<files, mem>>
\* the graph is dropped: after use, without use, or because a callback raised
Release(s) ==
  /\ run[s].ph # "none"
  /\ files' = [d \in DOMAIN files \ {run[s].dir} |-> files[d]]
  /\ mem' = [mem EXCEPT ![s] = <<>>]
  /\ run' = [run EXCEPT ![s] = [Idle EXCEPT !.gen = run[s].gen]]
Next == \E s \in Slots : \/ \E m \in Modes : Begin(s, m)
                         \/ Step(s) \/ BeginBack(s) \/ StepBack(s) \/ Release(s)
Spec == Init /\ [][Next]_vars

\* a backward pass only ever reads its own propagation's snapshots, in reverse
NeverMixed == \A s \in Slots : \A j \in 1..Len(run[s].read) :
  run[s].mode = "none" \/ run[s].read[j] = <<s, run[s].gen, Nt - j>>
\* directories exist exactly while their propagation is alive
CleansUp == DOMAIN files = {run[s].dir : s \in {x \in Slots : run[x].ph # "none" /\ run[x].mode = "disk"}}
=============================================================================
