------------------------------- MODULE Helpers -------------------------------
(***************************************************************************)
(* Which calls of the documented helpers are consistent: module            *)
(* constructors, Hicks and its methods, resampling, tapering, the CFL      *)
(* condition, the Ricker wavelet, and torch.func transforms of the         *)
(* propagators.                                                            *)
(*                                                                         *)
(* An argument is a literal [lit |-> text, v |-> <<>>], a tensor           *)
(* [lit |-> "tensor", v |-> its size], or indices [lit |-> "index",        *)
(* v |-> values].  TLC enumerates every call that differs from a good one  *)
(* in up to Depth arguments and prints it with its faults; a call whose    *)
(* fate is left open is not printed.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Depth
VARIABLES call, changed
L(x) == [lit |-> x, v |-> <<>>]
T(v) == [lit |-> "tensor", v |-> v]
X(v) == [lit |-> "index", v |-> v]
Ls(S) == {L(x) : x \in S}

Bools == {"True", "False"}
NotBool == {"1", "0", "None", "'a'"}
NotTensor == {"None", "'a'", "[[1.0, 2.0], [3.0, 4.0]]", "2.0"}
Frac == {"0.0", "0.3", "1.0", "0", "1"}
NotFrac == {"-0.1", "1.1", "'a'", "None", "float('nan')"}
Flags == Ls(Bools)
Model == T(<<4, 5>>)

\* for every function: argument -> <<values by themselves right, values by themselves wrong>>; the first right one is that of the base call
Ctor(models) == [models |-> models]
Module(ms) == [a \in ms \cup {m \o "_requires_grad" : m \in ms} |->
                 IF a \in ms THEN [good |-> {Model, T(<<3, 4, 5>>)}, bad |-> Ls(NotTensor)]
                 ELSE [good |-> Flags, bad |-> Ls(NotBool)]]
Resample == [signal |-> [good |-> {T(<<2, 8>>), T(<<7>>), T(<<1, 2, 9>>), T(<<2, 0>>)}, bad |-> Ls(NotTensor)],
             step_ratio |-> [good |-> Ls({"2", "1", "5"}), bad |-> Ls({"0", "-1", "2.0", "None", "'2'"})],
             freq_taper_frac |-> [good |-> Ls(Frac), bad |-> Ls(NotFrac)],
             time_pad_frac |-> [good |-> Ls(Frac), bad |-> Ls(NotFrac)],
             time_taper |-> [good |-> Ls(Bools), bad |-> Ls(NotBool)]]
Surfaces == {"[True, False, False, False]", "[False, True, True, True]", "[False, False, False, True]"}
Spec0(f) ==
  CASE f = "Scalar" -> Module({"v"})
    [] f = "ScalarBorn" -> Module({"v", "scatter"})
    [] f = "Acoustic" -> Module({"v", "rho"})
    [] f = "Elastic" -> Module({"lamb", "mu", "buoyancy"})
    [] f = "upsample" -> Resample
    [] f = "downsample" -> Resample @@ [shift |-> [good |-> Ls({"0.0", "0.5", "-2", "3"}), bad |-> Ls({"'a'"})]]
    [] f = "cosine_taper_end" -> [signal |-> Resample.signal, n_taper |-> [good |-> Ls({"0", "3", "100"}), bad |-> Ls({"-1", "2.0", "None"})]]
    [] f = "cfl_condition_n" -> [grid_spacing |-> [good |-> Ls({"[5.0]", "[5.0, 4]", "(5.0, 4.0, 3.0)"}), bad |-> Ls({"[]", "[0.0]", "[5.0, -5.0]", "['a']", "None", "5.0", "[None]"})],
                                 dt |-> [good |-> Ls({"0.001", "-0.001", "1"}), bad |-> Ls({"'a'", "None"})],
                                 max_abs_vel |-> [good |-> Ls({"1500.0", "2000"}), bad |-> Ls({"0.0", "-1.0", "'a'", "None"})]]
    [] f = "ricker" -> [freq |-> [good |-> Ls({"25.0", "10"}), bad |-> Ls({"'a'", "None"})],
                        length |-> [good |-> Ls({"20", "1", "0"}), bad |-> Ls({"-1", "'a'", "None"})],
                        dt |-> [good |-> Ls({"0.004", "-0.004"}), bad |-> Ls({"0.0", "0", "'a'", "None"})],
                        peak_time |-> [good |-> Ls({"0.05", "0"}), bad |-> Ls({"'a'", "None"})],
                        dtype |-> [good |-> Ls({"None", "torch.float64"}), bad |-> Ls({"'a'", "3"})]]
    [] f = "Hicks" -> [locations |-> [good |-> {T(<<2, 3, 2>>), T(<<1, 3, 2>>), T(<<2, 1, 2>>)}, bad |-> Ls(NotTensor) \cup {T(<<3, 2>>), T(<<2, 3>>), T(<<1, 2, 3, 2>>), T(<<2, 3, 1>>), T(<<2, 3, 3>>)}],
                       halfwidth |-> [good |-> Ls({"4", "1", "10"}), bad |-> Ls({"0", "-1", "11", "4.0", "None", "'4'"})],
                       free_surfaces |-> [good |-> Ls({"None", "[False, False, False, False]"} \cup Surfaces),
                                          bad |-> Ls({"[True, False, False]", "[True, False, False, False, False]", "[1, 0, 0, 0]", "'True'", "3", "[]"})],
                       free_surface_locs |-> [good |-> Ls({"None", "[-0.5, 29.5, -0.5, 29.5]", "[0, 29, 0.5, 28.0]"}),
                                              bad |-> Ls({"[-0.5, 29.5, -0.5]", "[-0.5, 29.5, -0.5, 29.5, 0.0]", "['a', 1, 2, 3]", "[None, 1, 2, 3]", "3.0", "[]"})],
                       model_shape |-> [good |-> Ls({"None", "[30, 30]"}), bad |-> Ls({"[30]", "[30, 30, 30]", "['a', 30]", "[None, 30]", "30", "[]"})],
                       monopole |-> [good |-> Ls(Bools) \cup {T(<<2, 3>>), T(<<1, 3>>), T(<<2, 1>>)}, bad |-> {T(<<3, 3>>), T(<<2, 2>>), T(<<3, 2>>)}],
                       dipole_dim |-> [good |-> Ls({"0", "1"}) \cup {T(<<2, 3>>), T(<<1, 3>>), T(<<2, 1>>)}, bad |-> {T(<<3, 3>>), T(<<2, 2>>), T(<<3, 2>>)} \cup Ls({"2", "-1"})],
                       dtype |-> [good |-> Ls({"torch.float64", "torch.float32"}), bad |-> Ls({"'float'", "3", "None"})]]
    \* methods of an object for two shots of three points
    [] f = "source" -> [amplitudes |-> [good |-> {T(<<2, 3, 4>>), T(<<1, 3, 4>>), T(<<3, 3, 1>>)},
                                        bad |-> Ls(NotTensor) \cup {T(<<3, 4>>), T(<<2, 2, 3, 4>>), T(<<2, 2, 4>>), T(<<2, 4, 4>>), T(<<1, 4, 4>>)}],
                        shot_idxs |-> [good |-> {L("None"), X(<<0>>), X(<<1>>), X(<<1, 0>>), X(<<0, 0, 1>>)}, bad |-> {X(<<2>>), X(<<0, 2>>), L("3")}]]
    [] f = "receiver" -> [amplitudes |-> [good |-> {T(<<2, 0, 4>>), T(<<1, 0, 4>>), T(<<3, 0, 1>>)},    \* 0: as many as there are interpolated points
                                        bad |-> Ls(NotTensor) \cup {T(<<3, 4>>), T(<<2, 2, 3, 4>>), T(<<2, 1, 4>>), T(<<1, 1, 4>>)}],
                        shot_idxs |-> [good |-> {L("None"), X(<<0>>), X(<<1>>), X(<<1, 0>>), X(<<0, 0, 1>>)}, bad |-> {X(<<2>>), X(<<0, 2>>), L("3")}]]
    \* torch.func.vmap over one argument of a propagator
    [] f = "vmap" -> [kind |-> [good |-> Ls({"'scalar'", "'born'", "'acoustic'", "'elastic'"}), bad |-> {}],
                      over |-> [good |-> Ls({"'model'", "'model1'"}), bad |-> Ls({"'amplitudes'", "'wavefield'"})],
                      max_vel |-> [good |-> Ls({"2000.0", "-2000", "None"}), bad |-> {}],
                      python_backend |-> [good |-> Ls({"'eager'"}), bad |-> {}]]
Fns == {"Scalar", "ScalarBorn", "Acoustic", "Elastic", "upsample", "downsample", "cosine_taper_end", "cfl_condition_n", "ricker",
        "Hicks", "source", "receiver", "vmap"}
Base(f) ==
  CASE f \in {"Scalar", "ScalarBorn", "Acoustic", "Elastic"} -> [a \in DOMAIN Spec0(f) |-> IF Model \in Spec0(f)[a].good THEN Model ELSE L("True")]
    [] f \in {"upsample", "downsample"} -> [signal |-> T(<<2, 8>>), step_ratio |-> L("2"), freq_taper_frac |-> L("0.0"), time_pad_frac |-> L("0.0"), time_taper |-> L("False")]
                                           @@ IF f = "downsample" THEN [shift |-> L("0.0")] ELSE <<>>
    [] f = "cosine_taper_end" -> [signal |-> T(<<2, 8>>), n_taper |-> L("3")]
    [] f = "cfl_condition_n" -> [grid_spacing |-> L("[5.0, 4]"), dt |-> L("0.001"), max_abs_vel |-> L("1500.0")]
    [] f = "ricker" -> [freq |-> L("25.0"), length |-> L("20"), dt |-> L("0.004"), peak_time |-> L("0.05"), dtype |-> L("None")]
    [] f = "Hicks" -> [locations |-> T(<<2, 3, 2>>), halfwidth |-> L("4"), free_surfaces |-> L("None"), free_surface_locs |-> L("None"),
                       model_shape |-> L("[30, 30]"), monopole |-> L("True"), dipole_dim |-> L("0"), dtype |-> L("torch.float64")]
    [] f = "source" -> [amplitudes |-> T(<<2, 3, 4>>), shot_idxs |-> L("None")]
    [] f = "receiver" -> [amplitudes |-> T(<<2, 0, 4>>), shot_idxs |-> L("None")]
    [] f = "vmap" -> [kind |-> L("'scalar'"), over |-> L("'model'"), max_vel |-> L("2000.0"), python_backend |-> L("'eager'")]

Own(c) == {a \in DOMAIN c.args : c.args[a] \in Spec0(c.fn)[a].bad}
\* faults that take two arguments
Both(c) ==
  LET g == c.args IN
  CASE c.fn = "Hicks" ->
         (IF g.free_surfaces.lit \in Surfaces /\ g.model_shape.lit = "None" THEN {"model_shape for a free surface"} ELSE {})
         \cup (IF g.monopole.lit = "tensor" /\ g.monopole.v # SubSeq(g.locations.v, 1, 2) THEN {"monopole of every point"} ELSE {})
         \cup (IF g.dipole_dim.lit = "tensor" /\ g.dipole_dim.v # SubSeq(g.locations.v, 1, 2) THEN {"dipole_dim of every point"} ELSE {})
    [] c.fn \in {"source", "receiver"} ->
         IF g.amplitudes.v[1] # (IF g.shot_idxs.lit = "None" THEN 2 ELSE Len(g.shot_idxs.v)) THEN {"shots"} ELSE {}
    \* the speeds of a model that is transformed cannot be looked at
    [] c.fn = "vmap" -> IF g.max_vel.lit = "None" /\ (g.over.lit = "'model'" \/ g.kind.lit = "'elastic'") THEN {"max_vel"} ELSE {}
    [] OTHER -> {}
Faults(c) == LET o == Own(c) IN IF o # {} THEN o ELSE Both(c)
\* not decided: whether something is looked at that the other arguments make meaningless
Open(c) ==
  LET g == c.args IN
  CASE c.fn = "Hicks" -> Own(c) = {"dipole_dim"} /\ g.dipole_dim.lit # "tensor" /\ g.monopole.lit = "True"
    [] c.fn = "vmap" -> g.kind.lit = "'scalar'" /\ g.over.lit = "'model1'"
    [] OTHER -> FALSE

Init == /\ \E f \in Fns : call = [fn |-> f, args |-> Base(f)]
        /\ changed = {}
Next == /\ Cardinality(changed) < Depth
        /\ \E a \in DOMAIN call.args \ changed : \E x \in (Spec0(call.fn)[a].good \cup Spec0(call.fn)[a].bad) \ {call.args[a]} :
             call' = [call EXCEPT !.args[a] = x] /\ changed' = changed \cup {a}
Spec == Init /\ [][Next]_<<call, changed>>
BaseIsConsistent == changed = {} => Faults(call) = {}
Emit == ~Open(call) => PrintT("HIST " \o ToJson([fn |-> call.fn, args |-> call.args, changed |-> changed, faults |-> Faults(call)]))
=============================================================================
