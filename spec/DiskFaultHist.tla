--------------------------- MODULE DiskFaultHist ---------------------------
(***************************************************************************)
(* Which faults can happen when, during one propagation that is seen from  *)
(* its callbacks: the environment's part of DiskFault, drawn by TLC's      *)
(* simulator for replay, and which of them can have an effect.             *)
(*                                                                         *)
(* Places: "fwd" j (before chunk j), "mid" (between the passes), "bwd" j   *)
(* (after chunk j of the backward pass), in this order.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxFaults,
          Allowed,    \* kinds of events
          Ways,       \* of storage (indices of Modes)
          Cfs,        \* callback frequencies
          FileNos
Places == <<<<"fwd", 0>>, <<"fwd", 1>>, <<"fwd", 2>>, <<"fwd", 3>>, <<"mid", 0>>, <<"bwd", 0>>, <<"bwd", 1>>, <<"bwd", 2>>>>
VARIABLES case, at, hist
hvars == <<case, at, hist>>
Modes == <<"disk", "disk", "diskc", "disk", "diskc", "cpu", "device", "devicec">>
Kinds == {"scalar", "born", "acoustic", "elastic"}
None == [kind |-> "", mode |-> 0, variant |-> 0, cf |-> 0]
HInit == case = None /\ at = 1 /\ hist = <<>>
Choose == /\ case = None
          /\ \E k \in Kinds : \E m \in Ways : \E v \in 0..11 : \E c \in Cfs :
               case' = [kind |-> k, mode |-> m, variant |-> v, cf |-> c]
          /\ UNCHANGED <<at, hist>>
Ops(p) == IF p[1] = "fwd" THEN {"limit", "lift", "rmdir", "full"} ELSE {"shorten", "unlink", "rmdir"}
Faults == Cardinality({i \in 1..Len(hist) : hist[i].op # "lift"})
\* a size in thousandths of a complete file, plus bytes
Sizes == {<<0, 0>>, <<0, 1>>, <<300, 0>>, <<550, 3>>, <<1000, -1>>, <<1000, 0>>, <<1000, 1>>}
Event == /\ case # None /\ at <= Len(Places) /\ Faults < MaxFaults
         /\ \E op \in Ops(Places[at]) \cap Allowed : \E z \in Sizes : \E f \in FileNos :
              /\ op = "lift" => \E i \in 1..Len(hist) : hist[i].op = "limit"
              /\ hist' = Append(hist, [place |-> Places[at][1], j |-> Places[at][2], op |-> op, pm |-> z[1], off |-> z[2], file |-> f])
         /\ at' = at + 1 /\ UNCHANGED case
Pass == case # None /\ at <= Len(Places) /\ at' \in {at + 1, at + 2, at + 3} /\ UNCHANGED <<case, hist>>
HNext == Choose \/ Event \/ Pass
HSpec == HInit /\ [][HNext]_hvars
Emit == (case # None /\ at > Len(Places)) => PrintT("HIST " \o ToJson([case EXCEPT !.mode = Modes[case.mode]] @@ [events |-> hist]))

\* ------------------------------------------------------------ can it have an effect?
\* c: nt, cf, size (bytes of the longest file), sizes of all; e: an event with its limit in bytes
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Chunks(c) == (c.nt + c.cf - 1) \div c.cf
\* first forward chunk after the limit of event i that is written without it
Lifted(c, i) == LET k == {j \in (i + 1)..Len(c.events) : c.events[j].op \in {"lift", "limit"}}
                IN  IF k = {} THEN Chunks(c)
                    ELSE Min2(Chunks(c), c.events[CHOOSE j \in k : \A m \in k : j <= m].j)
Effective(c, i) ==
  LET e == c.events[i]
      left == Max2(0, c.nt - (e.j + 1) * c.cf)         \* backward steps still to do
  IN  CASE ~e.done -> FALSE
        [] ~(c.mode \in {"disk", "diskc"}) -> FALSE
        [] e.op = "lift" -> FALSE
        [] e.op = "full" -> e.j < Chunks(c)            \* one file cannot be written to any more
        [] e.op = "limit" -> Lifted(c, i) > e.j /\ e.bytes * c.nt < c.size * Min2(c.nt, Lifted(c, i) * c.cf)
        [] e.op = "rmdir" -> IF e.place = "bwd" THEN left > 0 ELSE TRUE
        [] e.place = "mid" -> e.op = "unlink" \/ e.bytes < e.was
        [] OTHER -> left > 0 /\ (e.op = "unlink" \/ e.bytes * c.nt < e.was * left)
=============================================================================
