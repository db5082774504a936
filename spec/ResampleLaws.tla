---------------------------- MODULE ResampleLaws ----------------------------
(***************************************************************************)
(* What the specified resampling guarantees, checked exhaustively over     *)
(* lengths, ratios and basis signals: band-limited signals survive up and  *)
(* down, the original samples are kept, constants stay constant, and       *)
(* frequencies at or above the coarse Nyquist do not come back.            *)
(***************************************************************************)
EXTENDS Resample
CONSTANTS MaxN, MaxR
VARIABLES n, r, k, ph
Plain == [sh |-> 0, ftn |-> 0, ftd |-> 8, tpn |-> 0, tpd |-> 8, hann |-> FALSE]
Tone(len, per) == [t \in 1..len |-> Rnd(Cos(k * (t - 1) + ph * (per \div 4), per), 16)]
Small(seq) == \A i \in 1..Len(seq) : Abs(seq[i]) <= 24
Close(a, b) == Worst(a, b) <= 24
Init == n \in 2..MaxN /\ r \in 1..MaxR /\ ph \in 0..1 /\ k \in 0..(MaxN * MaxR)
Band == 2 * k < n - 1
X == Tone(n, n)
Y == Up(Plain, X, r, 0)
Interpolates == Band => \A t \in 1..n : Abs(Y[r * (t - 1) + 1] - 8 * X[t]) <= 24
RoundTrip == Band => Close(Down(Plain, [s \in 1..(r * n) |-> Rnd(Y[s], 8)], r, 0), [t \in 1..n |-> 8 * X[t]])
Constant == k = 0 => Close(Y, [s \in 1..(r * n) |-> 8 * X[1]])
NoAlias == (2 * k >= n /\ 2 * k <= r * n /\ r > 1) => Small(Down(Plain, Tone(r * n, r * n), r, 0))
Next == UNCHANGED <<n, r, k, ph>>
Spec == Init /\ [][Next]_<<n, r, k, ph>>
=============================================================================
