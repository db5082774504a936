----------------------------- MODULE TimeLoopMC -----------------------------
(***************************************************************************)
(* The chunked time loops themselves, step by step, with the shots of a    *)
(* batch spread over threads that may run in any order.                    *)
(*                                                                         *)
(* A propagation of nt internal steps is cut into sampling steps of q      *)
(* internal steps and into chunks of cf sampling steps.  Inside a chunk    *)
(* the kernel alternates between two buffers by the parity of t - start;   *)
(* between chunks the caller swaps its two names when the chunk had an odd *)
(* number of steps.  Buffers hold the time index of the field in them, so  *)
(* "the right field" is simply a number.                                   *)
(*                                                                         *)
(* The gradient of a model shared by the batch is accumulated per thread,  *)
(* with reads and writes that other threads may come between, and added to *)
(* the result after every chunk; buffers count how often each              *)
(* contribution <<shot, sampling step>> is in them.                        *)
(*                                                                         *)
(* The constants in capitals are the decisions that make it right; each    *)
(* wrong value is a control that TLC has to refute.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxNt, MaxQ, MaxCf, MaxShots, MaxThreads, Passes,
          SWAP,        \* "odd" | "always" | "never"
          ROUND,       \* "up" | "down": number of sampling steps
          PERTHREAD,   \* one gradient buffer per thread
          ZEROTMP,     \* zeroed before every chunk
          LASTSHORT,   \* the last chunk stops at nt
          APPEND       \* disk: one file per shot, appended to
TL == INSTANCE TimeLoop

VARIABLES cfg,    \* nt, q, cf, ns, th, batched
          ph,     \* "fcall" "fwd" "bcall" "bwd" "done"
          step,   \* sampling step at the start (forward) or end (backward) of the chunk
          cur,    \* which buffer the caller calls current: 0 or 1
          buf,    \* shot -> <<time index in buffer 0, in buffer 1>>
          pc,     \* thread -> [s, t, at, acc]: its shot, time, micro step, value read
          store,  \* shot -> snapshots, as time indices
          tmp,    \* thread -> contribution -> count
          grad,   \* contribution -> count
          pass,   \* which backward pass over the same graph
          flog, blog
vars == <<cfg, ph, step, cur, buf, pc, store, tmp, grad, pass, flog, blog>>

Shots == 1..cfg.ns
Threads == 1..cfg.th
Ceil(a, b) == (a + b - 1) \div b
NSteps == IF ROUND = "up" THEN Ceil(cfg.nt, cfg.q) ELSE cfg.nt \div cfg.q
\* shots of a thread: contiguous blocks, the first ones longer (OpenMP's static schedule)
Block(th) == LET b == cfg.ns \div cfg.th  m == cfg.ns % cfg.th
             IN  {s \in Shots : s > (th - 1) * b + (IF th - 1 < m THEN th - 1 ELSE m) /\
                                s <= th * b + (IF th < m THEN th ELSE m)}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Contribs == Shots \X (0..(Ceil(cfg.nt, cfg.q) - 1))
Zero == [c \in Contribs |-> 0]
MinOf(a, b) == IF a < b THEN a ELSE b

\* the chunk that starts (forward) or ends (backward) at step
FStart == step * cfg.q
FNt == LET n == MinOf(NSteps - step, cfg.cf) * cfg.q
       IN  IF LASTSHORT THEN MinOf(n, cfg.nt - FStart) ELSE n
BEnd == IF LASTSHORT THEN MinOf(step * cfg.q, cfg.nt) ELSE step * cfg.q
BLen == MinOf(step, cfg.cf)
BNt == BEnd - (step - BLen) * cfg.q
Swapped(n) == CASE SWAP = "odd" -> n % 2 = 1 [] SWAP = "always" -> TRUE [] OTHER -> FALSE
Started(t) == [th \in Threads |-> IF Block(th) = {} THEN [s |-> 0, t |-> t, at |-> "end", acc |-> Zero]
                                  ELSE [s |-> Min(Block(th)), t |-> t, at |-> "top", acc |-> Zero]]
AllEnd == \A th \in Threads : pc[th].at = "end"
Idle == [th \in Threads |-> [s |-> 0, t |-> 0, at |-> "end", acc |-> Zero]]

Init ==
  /\ cfg \in [nt : 0..MaxNt, q : 1..MaxQ, cf : 1..MaxCf, ns : 1..MaxShots, th : 1..MaxThreads, batched : BOOLEAN]
  /\ cfg.th <= cfg.ns
  /\ ph = "fcall" /\ step = 0 /\ cur = 0
  \* at the start the current field is at time 0, the other one at -1
  /\ buf = [s \in Shots |-> <<0, -1>>]
  /\ pc = Idle
  /\ store = [s \in Shots |-> <<>>]
  /\ tmp = [th \in Threads |-> Zero]
  /\ grad = Zero
  /\ pass = 0 /\ flog = <<>> /\ blog = <<>>

\* ---- forward ----
FCall ==
  /\ ph = "fcall"
  /\ IF step >= NSteps
     THEN /\ ph' = "turn" /\ UNCHANGED <<step, flog, pc>>
     ELSE /\ flog' = Append(flog, step) /\ ph' = "fwd" /\ pc' = Started(FStart) /\ UNCHANGED step
  /\ UNCHANGED <<cfg, cur, buf, store, tmp, grad, pass, blog>>
\* one internal step of one thread's shot: the kernel reads the current
\* buffer and overwrites the other one
NextShot(th, s) == {x \in Block(th) : x > s}
After(th, s, first) == IF NextShot(th, s) = {} THEN [s |-> s, t |-> first, at |-> "end", acc |-> Zero]
                       ELSE [s |-> Min(NextShot(th, s)), t |-> first, at |-> "top", acc |-> Zero]
Index(t, start) == IF (t - start) % 2 = 0 THEN cur ELSE 1 - cur
FStep(th) ==
  /\ ph = "fwd" /\ pc[th].at = "top"
  /\ LET s == pc[th].s  t == pc[th].t
     IN  IF t = FStart + FNt
         THEN /\ pc' = [pc EXCEPT ![th] = After(th, s, FStart)]
              /\ UNCHANGED <<buf, store>>
         ELSE LET c == Index(t, FStart)
              IN  /\ buf' = [buf EXCEPT ![s][(1 - c) + 1] = buf[s][c + 1] + 1]
                  /\ store' = IF t % cfg.q = 0
                              THEN [store EXCEPT ![IF APPEND THEN s ELSE 1] = Append(@, <<s, buf[s][c + 1]>>)]
                              ELSE store
                  /\ pc' = [pc EXCEPT ![th].t = t + 1]
  /\ UNCHANGED <<cfg, ph, step, cur, tmp, grad, pass, flog, blog>>
FEnd ==
  /\ ph = "fwd" /\ AllEnd
  /\ cur' = IF Swapped(FNt) THEN 1 - cur ELSE cur
  /\ step' = step + cfg.cf
  /\ ph' = "fcall"
  /\ UNCHANGED <<cfg, buf, pc, store, tmp, grad, pass, flog, blog>>

\* ---- backward ----
Turn ==
  /\ ph = "turn" /\ pass < Passes
  /\ pass' = pass + 1 /\ step' = NSteps /\ cur' = 0
  \* adjoint fields: at time nt (nothing yet), then nt - 1, ...
  /\ buf' = [s \in Shots |-> <<cfg.nt, cfg.nt + 1>>]
  /\ grad' = Zero /\ tmp' = [th \in Threads |-> Zero] /\ blog' = <<>>
  /\ ph' = "bcall"
  /\ UNCHANGED <<cfg, pc, store, flog>>
BStart ==
  /\ ph = "bcall"
  /\ IF step <= 0
     THEN ph' = "turn" /\ UNCHANGED <<tmp, pc>>
     ELSE /\ tmp' = IF ZEROTMP THEN [th \in Threads |-> Zero] ELSE tmp
          /\ ph' = "bwd" /\ pc' = Started(BEnd)
  /\ UNCHANGED <<cfg, step, cur, buf, store, grad, pass, flog, blog>>
Direct == cfg.batched \/ cfg.th = 1   \* added to the result itself
Slot(th) == IF PERTHREAD THEN th ELSE 1
\* pc.t counts down: pc.t is one more than the step being run.  "top" loads
\* and steps, "read" and "write" are the two halves of the accumulation.
BStep(th) ==
  /\ ph = "bwd" /\ pc[th].at = "top"
  /\ LET s == pc[th].s  t == pc[th].t - 1
     IN  IF pc[th].t = BEnd - BNt
         THEN /\ pc' = [pc EXCEPT ![th] = After(th, s, BEnd)] /\ UNCHANGED buf
         ELSE LET c == IF (BEnd - 1 - t) % 2 = 0 THEN cur ELSE 1 - cur
              IN  /\ buf' = [buf EXCEPT ![s][(1 - c) + 1] = buf[s][c + 1] - 1]
                  /\ pc' = [pc EXCEPT ![th].at = IF t % cfg.q = 0 THEN "read" ELSE "top",
                                      ![th].t = IF t % cfg.q = 0 THEN pc[th].t ELSE t]
  /\ UNCHANGED <<cfg, ph, step, cur, store, tmp, grad, pass, flog, blog>>
\* what was loaded: snapshot t div q of the shot's store, which names the
\* forward field it is a copy of
Loaded(s, t) == LET st == store[IF APPEND THEN s ELSE 1]  j == t \div cfg.q + 1
                IN  IF j > Len(st) THEN <<0, -1>> ELSE st[j]
BRead(th) ==
  /\ ph = "bwd" /\ pc[th].at = "read"
  /\ pc' = [pc EXCEPT ![th].at = "write", ![th].acc = IF Direct THEN grad ELSE tmp[Slot(th)]]
  /\ UNCHANGED <<cfg, ph, step, cur, buf, store, tmp, grad, pass, flog, blog>>
BWrite(th) ==
  /\ ph = "bwd" /\ pc[th].at = "write"
  /\ LET s == pc[th].s  t == pc[th].t - 1
         x == Loaded(s, t)
         c == <<x[1], x[2] \div cfg.q>>
         \* batched models have a slice per shot, which no one else touches
         base == IF Direct THEN IF cfg.batched THEN grad ELSE pc[th].acc ELSE pc[th].acc
         new == IF c \in Contribs THEN [base EXCEPT ![c] = @ + 1] ELSE base
     IN  /\ IF Direct THEN grad' = new /\ UNCHANGED tmp ELSE tmp' = [tmp EXCEPT ![Slot(th)] = new] /\ UNCHANGED grad
         /\ pc' = [pc EXCEPT ![th].at = "top", ![th].t = t, ![th].acc = Zero]
  /\ UNCHANGED <<cfg, ph, step, cur, buf, store, pass, flog, blog>>
RECURSIVE SumTh(_, _)
SumTh(c, k) == IF k = 0 THEN 0 ELSE tmp[k][c] + SumTh(c, k - 1)
BEndChunk ==
  /\ ph = "bwd" /\ AllEnd
  /\ grad' = IF Direct THEN grad ELSE [c \in Contribs |-> grad[c] + SumTh(c, cfg.th)]
  /\ cur' = IF Swapped(BNt) THEN 1 - cur ELSE cur
  /\ step' = step - BLen
  /\ blog' = Append(blog, step')
  /\ ph' = "bcall"
  /\ UNCHANGED <<cfg, buf, pc, store, tmp, pass, flog>>
Next == \/ FCall \/ FEnd \/ Turn \/ BStart \/ BEndChunk
        \/ \E th \in Threads : FStep(th) \/ BStep(th) \/ BRead(th) \/ BWrite(th)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---- properties ----
\* whenever the caller has control, the field it calls current is the one of
\* the time it says it is, and the other one is the step before
ForwardFields == (ph = "fcall" \/ (ph = "turn" /\ pass = 0)) =>
  LET t == MinOf(FStart, cfg.nt)
  IN  \A s \in Shots : buf[s][cur + 1] = t /\ buf[s][(1 - cur) + 1] = t - 1
BackwardFields == (ph = "bcall" \/ (ph = "turn" /\ pass > 0)) =>
  LET t == MinOf(step * cfg.q, cfg.nt)
  IN  \A s \in Shots : buf[s][cur + 1] = t /\ buf[s][(1 - cur) + 1] = t + 1
\* every snapshot is stored once, in order, and belongs to its own shot
Stored == ph \in {"turn", "bcall", "bwd"} => \A s \in Shots :
  store[s] = [j \in 1..Ceil(cfg.nt, cfg.q) |-> <<s, (j - 1) * cfg.q>>]
\* a backward callback sees exactly the contributions of the steps run so far,
\* and at the end of every pass each of them is in the gradient once
Gradient == (ph = "bcall" \/ (ph = "turn" /\ pass > 0)) =>
  grad = [c \in Contribs |-> IF c[2] >= step THEN 1 ELSE 0]
Schedule == ph = "turn" => /\ flog = TL!ForwardSteps(Ceil(cfg.nt, cfg.q), cfg.cf)
                           /\ (pass > 0 => blog = TL!BackwardSteps(Ceil(cfg.nt, cfg.q), cfg.cf))
\* every configuration with the schedule it must show, for the replay on the code
Emit == (ph = "turn" /\ pass = Passes /\ ~cfg.batched) =>
          PrintT("HIST " \o ToJson([nt |-> cfg.nt, q |-> cfg.q, cf |-> cfg.cf, ns |-> cfg.ns, th |-> cfg.th,
                                    f |-> flog, b |-> blog]))
Ends == <>(ph = "turn" /\ pass = Passes)
=============================================================================
