------------------------------- MODULE Equiv -------------------------------
(***************************************************************************)
(* Many ways to ask for the same experiment.                               *)
(*                                                                         *)
(* An experiment b says what is propagated: the propagator, the shots with *)
(* their sources and receivers, which models are a shot's own, the         *)
(* absorbing layers, the steps, what is differentiated and observed.  A    *)
(* call c is one way of asking for it: which shots are propagated together *)
(* and in which order, in which slots the sources and receivers are and    *)
(* which slots are ignored, into how many pieces the time is cut, which    *)
(* axis comes first and which way it runs, the backend, the precision, the *)
(* storage, the threads and the memory layout.  Moves change the call and  *)
(* keep its meaning (invariant Kept); so the results must stay the same.   *)
(* TLC draws experiments and walks of moves; every call on the way is made.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Moves,      \* kinds of moves made
          Backs,      \* backends and precisions the walks start from
          First,      \* the kind of the first move; "" for any
          Rare,       \* one in how many experiments takes more than one inner time step per sample
          Depth
VARIABLES b, c, k

Reference == {<<"c", "double">>}
Several == {<<"c", "double">>, <<"c", "float">>, <<"eager", "double">>}
vars == <<b, c, k>>
R(S) == RandomElement(S)
OneIn(n) == R(1..n) = 1
Stag(kind) == kind \in {"acoustic", "elastic"}
Axes(nd) == SubSeq(<<"z", "y", "x">>, 4 - nd, 3)
SrcTypes(x) == IF Stag(x.kind) THEN {"p"} \cup {Axes(x.nd)[i] : i \in 1..x.nd} ELSE {"p"}
RecTypes(x) == CASE x.kind = "scalar" -> {"p"} [] x.kind = "born" -> {"p", "sc"} [] OTHER -> SrcTypes(x)
Models(kind) == CASE kind = "scalar" -> {"v"} [] kind = "born" -> {"v", "scatter"} [] kind = "acoustic" -> {"v", "rho"}
                  [] kind = "elastic" -> {"lamb", "mu", "buoyancy"}
Seqs(n) == [i \in 1..n |-> i]
Sum(q) == FoldSeq(LAMBDA x, y : x + y, 0, q)
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}

--------------------------------------------------------------------------
(* experiments *)
Span(nd, z) == CASE nd = 1 -> IF OneIn(12) THEN 60..250 ELSE 4..30
                 [] nd = 2 -> IF OneIn(12) THEN 20..50 ELSE 3..14
                 [] nd = 3 -> IF OneIn(12) THEN 8..14 ELSE 3..7
Room(x) == FoldSeq(LAMBDA a, z : z * (a - 1), 1, x.n)     \* cells for sources and receivers
Count(x, top) == IF OneIn(8) /\ Room(x) >= 12 THEN 4..12 ELSE 0..top
Experiment ==
  \E kind \in {R({"scalar", "born", "acoustic", "elastic"})}, nd \in {R(1..3)}, ns \in {R(IF OneIn(8) THEN {4, 5, 9, 20} ELSE 1..3)} :
  \E n \in {[i \in 1..nd |-> R(Span(nd, i))]}, pml \in {[i \in 1..(2 * nd) |-> R(0..(IF nd = 3 THEN 3 ELSE 5))]},
     nt \in {R(IF nd < 3 /\ OneIn(10) THEN {40, 70, 131} ELSE {1, 2, 3, 5, 8, 12, 18})}, q \in {IF OneIn(4) THEN R({2, 3}) ELSE 1}, r \in {IF OneIn(Rare) THEN 2 ELSE 1},
     own \in {R(SUBSET Models(kind))}, diff \in {R(SUBSET {"models", "amp", "init"})},
     init \in {First = "writes" \/ OneIn(2)}, cb \in {OneIn(2)}, bcb \in {OneIn(2)}, cf \in {R(1..3)} :
  \E x \in {[kind |-> kind, nd |-> nd, acc |-> R({2, 4, 6, 8}), ns |-> ns, n |-> n, pml |-> pml, nt |-> nt,
             q |-> IF nt = 1 THEN 1 ELSE q, r |-> r, back |-> OneIn(4), even |-> OneIn(2), own |-> own,
             freq |-> R({10, 25, 40}),
             taper |-> IF r = 1 THEN OneIn(8) ELSE ~OneIn(3), diff |-> IF init THEN diff ELSE diff \ {"init"}, init |-> init,
             cb |-> cb, bcb |-> bcb /\ diff # {}, cf |-> cf,
             seed |-> R(1..1000000)]} :
    b' = [src |-> [t \in SrcTypes(x) |-> IF First = "writes" THEN 0 ELSE R(Count(x, 2))], rec |-> [t \in RecTypes(x) |-> R(Count(x, 3))]] @@ x

\* something to propagate, and room for the sources of a shot
Sane(x) == (x.init \/ \E t \in DOMAIN x.src : x.src[t] > 0) /\ \A d \in 1..x.nd : x.n[d] >= 3

--------------------------------------------------------------------------
(* calls *)
Plain(x, back, prec) ==
  [ ambient |-> "plain", after |-> "none", writes |-> "none", call |-> "function", order |-> <<>>, groups |-> <<Seqs(x.ns)>>, pieces |-> <<x.nt>>,
    src |-> [t \in DOMAIN x.src |-> [s \in 1..x.ns |-> Seqs(x.src[t])]],
    rec |-> [t \in DOMAIN x.rec |-> [s \in 1..x.ns |-> Seqs(x.rec[t])]],
    parts |-> 1, delay |-> 0, zeros |-> FALSE,
    axes |-> Seqs(x.nd), mirror |-> [i \in 1..x.nd |-> FALSE], scale |-> 0, mass |-> 0,
    form |-> [m \in Models(x.kind) |-> IF m \in x.own THEN "own" ELSE "one"],
    layout |-> "plain", locs |-> "int64", spacing |-> "list", width |-> "list", given |-> TRUE, region |-> "none",
    back |-> back, prec |-> prec, storage |-> "device", compress |-> FALSE, threads |-> 1, noted |-> x.diff ]

Python(x) == (x.q = 1 /\ x.r = 1) \/ "models" \notin x.diff     \* it differentiates exactly, not by samples
Compiled(y) == y.back = "c"
Steady(x) == x.r = 1 /\ x.q = 1 /\ ~x.taper          \* data are used sample by sample
SlotWays(n) == (IF n < 4 THEN Perms(n) ELSE {[i \in 1..n |-> 1 + ((i + 2) % n)], Reverse(Seqs(n))}) \cup {<<0>> \o Seqs(n), Append(Seqs(n), 0), <<0, 0>> \o Reverse(Seqs(n))}
GroupWays(n) == {<<Reverse(Seqs(n))>>, [i \in 1..n |-> <<i>>]} \cup (IF n > 3 THEN {<<[i \in 1..n |-> 1 + (i % n)]>>, <<[i \in 1..(n - 2) |-> i + 2], <<2, 1>>>>} ELSE {}) \cup (IF n = 3 THEN {<<<<2>>, <<3, 1>>>>, <<<<3, 1, 2>>>>} ELSE {})
Cut(n) == {<<i, n - i>> : i \in 1..(n - 1)} \cup (IF n > 2 THEN {<<1, 1, n - 2>>, <<n - 2, 1, 1>>} ELSE {})
Unnoted == {"no_grad", "inference"}      \* nothing is differentiated
Traced == {"jit", "compile"}             \* torch does not promise to trace in several threads
Wheres(x) == IF \E t \in DOMAIN x.src : x.src[t] > 0 THEN TRUE ELSE \E t \in DOMAIN x.rec : x.rec[t] > 0
\* the documented order of the first optional arguments
Order(kind) ==
  LET each(a, q) == [i \in 1..Len(q) |-> a \o "_" \o q[i]]
      amp == "source_amplitudes"  at == "source_locations"  rec == "receiver_locations"
  IN  (CASE kind = "scalar" -> <<amp, at, rec>>
         [] kind = "born" -> <<amp, at, rec, "bg_receiver_locations">>
         [] kind = "acoustic" -> FlattenSeq([i \in 1..4 |-> LET t == <<"p", "z", "y", "x">>[i] IN <<amp \o "_" \o t, at \o "_" \o t>>]) \o each(rec, <<"p", "z", "y", "x">>)
         [] kind = "elastic" -> LET q == <<"z", "y", "x", "p">> IN each(amp, q) \o each(at, q) \o each(rec, q))
      \o <<"accuracy", "pml_width", "pml_freq", "max_vel", "survey_pad">>
Move(m, x, y) ==
  CASE m = "call" -> {[y EXCEPT !.call = z, !.order = IF z = "positional" THEN Order(x.kind) ELSE <<>>] :
                      z \in {"function", "module", "functional", "copied", "loaded", "pickled", "positional"}}
    [] m = "groups" -> {[y EXCEPT !.groups = g] : g \in GroupWays(x.ns)}
    [] m = "sources" -> UNION {{[y EXCEPT !.src[t][s] = w] : w \in SlotWays(x.src[t])} : t \in {t \in DOMAIN x.src : x.src[t] > 0}, s \in 1..x.ns}
    [] m = "receivers" -> UNION {{[y EXCEPT !.rec[t][s] = w] : w \in SlotWays(x.rec[t])} : t \in {t \in DOMAIN x.rec : x.rec[t] > 0}, s \in 1..x.ns}
    \* linear and invariant in time
    [] m = "parts" -> {[y EXCEPT !.parts = 3 - @]}
    [] m = "delay" -> IF Steady(x) /\ ~x.init THEN {[y EXCEPT !.delay = z] : z \in {0, 1, 3}} ELSE {}
    [] m = "zeros" -> IF y.region = "within" /\ ~x.init THEN {} ELSE {[y EXCEPT !.zeros = ~@]}
    [] m = "pieces" -> IF Steady(x) THEN {[y EXCEPT !.pieces = z] : z \in Cut(x.nt)} ELSE {}
    [] m = "axes" -> {[y EXCEPT !.axes = p] : p \in Perms(x.nd)}
    [] m = "mirror" -> IF Stag(x.kind) THEN {} ELSE {[y EXCEPT !.mirror[i] = ~@] : i \in 1..x.nd}
    [] m = "scale" -> {[y EXCEPT !.scale = z] : z \in {-2, 1, 3, -40, 40}}
    \* another unit of mass: densities, moduli, pressures, stresses and forces grow together
    [] m = "mass" -> IF Stag(x.kind) THEN {[y EXCEPT !.mass = z] : z \in {-60, -30, 0, 24}} ELSE {}
    [] m = "form" -> UNION {{[y EXCEPT !.form[i] = f] : f \in {"one", "lead", "expand", "copy"}} : i \in Models(x.kind) \ x.own}
    [] m = "layout" -> {[y EXCEPT !.layout = z] : z \in {"plain", "strided", "offset"}}
    [] m = "locs" -> {[y EXCEPT !.locs = z] : z \in {"int64", "strided", "int32"}}
    [] m = "spacing" -> IF x.even THEN {[y EXCEPT !.spacing = z] : z \in {"list", "scalar", "tuple", "int"}} ELSE {[y EXCEPT !.spacing = "tuple"]}
    [] m = "width" -> {[y EXCEPT !.width = z] : z \in {"list", "tuple"} \cup (IF Cardinality({x.pml[i] : i \in 1..(2 * x.nd)}) = 1 THEN {"scalar"} ELSE {})}
    [] m = "given" -> {[y EXCEPT !.given = ~@]}
    [] m = "region" -> {[y EXCEPT !.region = z] : z \in {"none", "nones", "wide", "mixed"} \cup (IF x.init THEN {"origin"} ELSE {})
                         \cup (IF x.init \/ y.zeros THEN {"within"} ELSE {}) \cup (IF Wheres(x) THEN {"around"} ELSE {})}
    [] m = "threads" -> {[y EXCEPT !.threads = z] : z \in {1, 2, 3, 5}}
    [] m = "storage" -> IF Compiled(y) THEN {[y EXCEPT !.storage = z] : z \in {"device", "cpu", "disk"}} ELSE {}
    [] m = "compress" -> IF Compiled(y) THEN {[y EXCEPT !.compress = ~@]} ELSE {}
    [] m = "noted" -> {[y EXCEPT !.noted = z] : z \in {{}} \cup IF y.ambient \in Unnoted THEN {} ELSE {x.diff}}
    \* what else is going on: global settings of torch, the thread, other calls at the same time
    \* a call just before that differs in one thing: nothing of it may be left
    [] m = "after" -> {[y EXCEPT !.after = z] : z \in {"none", "pml_freq", "max_vel", "dt", "accuracy", "spacing", "taper", "pad", "values", "models", "amplitudes",
                                                     "places", "nt", "sampling", "callbacks", "dtype", "shots", "width", "threads", "storage", "backwards"}}
    \* a backward callback may change the gradients in place: multiplied at its last step, they are returned multiplied
    \* (all of it: what a model contributes to the amplitudes of sources is not in them, so there are none)
    \* a forward callback may change the wavefields in place: multiplied at its first step, so is everything that follows
    [] m = "writes" -> IF Compiled(y) /\ (\A t \in DOMAIN x.src : x.src[t] = 0)
                       THEN {[y EXCEPT !.writes = z] : z \in {"none", "waves", "wavespml"} \cup IF "models" \in x.diff THEN {"full", "pml"} ELSE {}} ELSE {}
    [] m = "ambient" -> {[y EXCEPT !.ambient = z] : z \in {"plain", "double", "deterministic", "packed"}
                                                         \cup (IF y.back \in Traced THEN {} ELSE {"thread", "crowd"})
                                                         \cup IF y.noted = {} THEN Unnoted ELSE {}}
    [] m = "backend" -> IF Python(x) /\ y.storage = "device" /\ ~y.compress
                        THEN {[y EXCEPT !.back = z] : z \in {"c", "eager"} \cup IF y.ambient \in {"thread", "crowd"} THEN {} ELSE Traced} ELSE {}
    [] m = "precision" -> {[y EXCEPT !.prec = z] : z \in {"double", "float"}}

Init == b = [kind |-> ""] /\ c = [none |-> 0] /\ k = -2
Draw == k = -2 /\ Experiment /\ c' = c /\ k' = IF Sane(b') THEN -1 ELSE -2
Start == k = -1 /\ b' = b /\ k' = 0
         /\ \E z \in {R({w \in Backs : w[1] = "c" \/ Python(b)})} : c' = Plain(b, z[1], z[2])
Step == k >= 0 /\ k < Depth /\ b' = b /\ k' = k + 1
        /\ \E m \in {R({m \in IF k = 0 /\ First # "" /\ Move(First, b, c) \ {c} # {} THEN {First} ELSE Moves : Move(m, b, c) \ {c} # {}})} : \E z \in {R(Move(m, b, c) \ {c})} : c' = z
Next == Draw \/ Start \/ Step
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
(* what a call asks for *)
Active(q) == SelectSeq(q, LAMBDA i : i # 0)
Meaning(x, y) ==
  [ times |-> Sum(y.pieces),
    shots |-> [s \in 1..x.ns |->
      [ how_often |-> Cardinality({<<g, i>> \in (1..Len(y.groups)) \X (1..x.ns) : i <= Len(y.groups[g]) /\ y.groups[g][i] = s}),
        src |-> [t \in DOMAIN x.src |-> [i \in 1..x.src[t] |-> Cardinality({j \in 1..Len(y.src[t][s]) : y.src[t][s][j] = i})]],
        rec |-> [t \in DOMAIN x.rec |-> [i \in 1..x.rec[t] |-> Cardinality({j \in 1..Len(y.rec[t][s]) : y.rec[t][s][j] = i})]] ]],
    axes |-> {y.axes[i] : i \in 1..x.nd},
    own |-> {m \in Models(x.kind) : y.form[m] = "own"} ]
Kept == k >= 0 => Meaning(b, c) = Meaning(b, Plain(b, "c", "double"))
\* what a backend supports
Legal == k >= 0 =>
  /\ ~Compiled(c) => Python(b) /\ c.storage = "device" /\ ~c.compress
  /\ Len(c.pieces) > 1 \/ c.delay > 0 => Steady(b)
  /\ c.ambient \in Unnoted => c.noted = {}
  /\ c.region \in {"within", "origin"} => b.init \/ c.zeros
  /\ \A i \in 1..Len(c.pieces) : c.pieces[i] > 0
Emit == k >= 0 => PrintT("CALL " \o ToJson([b |-> b, c |-> c, k |-> k]))
=============================================================================
