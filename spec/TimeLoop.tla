------------------------------ MODULE TimeLoop ------------------------------
(***************************************************************************)
(* The schedule of the chunked time loops, as seen by callbacks.           *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* n steps in chunks of f: forward callbacks before each chunk, backward ones
\* after each chunk counted from the end
ForwardSteps(n, f) == [k \in 1..((n + f - 1) \div f) |-> (k - 1) * f]
BackwardSteps(n, f) == [k \in 1..((n + f - 1) \div f) |-> IF n - k * f > 0 THEN n - k * f ELSE 0]
ScheduleBad(s) ==
  IF s.hasf /\ s.f # ForwardSteps(s.n, s.cf) THEN <<"forward-schedule", s.n, s.cf, s.f>>
  ELSE IF s.hasb /\ s.b # BackwardSteps(s.n, s.cf) THEN <<"backward-schedule", s.n, s.cf, s.b>>
  ELSE <<>>
=============================================================================
