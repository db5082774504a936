---------------------------- MODULE ContractGen ----------------------------
(***************************************************************************)
(* Calls: consistent ones, and what becomes of them when one argument      *)
(* after the other is changed.  TLC enumerates every single change         *)
(* (Depth = 1), or draws longer histories.                                 *)
(***************************************************************************)
EXTENDS Contract, Json
CONSTANTS Kinds, Dims, Bases, Depth, Pys
VARIABLES c, steps, what

Size(nd) == CASE nd = 1 -> <<7>> [] nd = 2 -> <<6, 5>> [] nd = 3 -> <<5, 6, 5>>
NModels(k) == CASE k = "scalar" -> 1 [] k = "elastic" -> 3 [] OTHER -> 2
NSrc(k, nd) == IF k \in {"scalar", "born"} THEN 1 ELSE nd + 1
NRec(k, nd) == IF k = "scalar" THEN 1 ELSE IF k = "born" THEN 2 ELSE nd + 1
NWf(k, nd) == CASE k = "scalar" -> 2 + 2 * nd [] k = "born" -> 4 + 4 * nd [] k = "acoustic" -> 1 + 3 * nd
                [] k = "elastic" -> CASE nd = 1 -> 4 [] nd = 2 -> 13 [] nd = 3 -> 27
Ns == 2
Nt == 3
T(size) == [have |-> TRUE, cls |-> "tensor", dev |-> "cpu", dt |-> "double", size |-> size]
Absent == [have |-> FALSE, cls |-> "tensor", dev |-> "cpu", dt |-> "double", size |-> <<>>]
\* two points per shot, inside any region used below
Pts(nd, i) == [s \in 1..Ns |-> [k \in 1..2 |-> [d \in 1..nd |-> IF d = 1 + (i % nd) THEN k + 1 ELSE 2 + ((s + i) % 2)]]]
Loc(nd, i) == [have |-> TRUE, cls |-> "tensor", dev |-> "cpu", ndim |-> 3, last |-> nd, count |-> 2, frac |-> "", pts |-> Pts(nd, i)]
NoLoc(nd) == [Loc(nd, 1) EXCEPT !.have = FALSE]
Pml(nd) == SubSeq(<<1, 2, 2, 0, 1, 1>>, 1, 2 * nd)
Scal == [a \in Args |-> CASE a = "accuracy" -> Lit("4") [] a = "dt" -> Lit("0.001") [] a = "grid_spacing" -> Lit("5.0")
          [] a \in {"pml_freq"} -> Lit("25.0") [] a = "model_gradient_sampling_interval" -> Lit("1")
          [] a \in {"freq_taper_frac", "time_pad_frac"} -> Lit("0.0") [] a = "callback_frequency" -> Lit("1")
          [] a = "storage_mode" -> Lit("'device'") [] a \in {"storage_compression", "python_backend"} -> Lit("False")
          [] a = "forward_callback" -> Lit("cb") [] OTHER -> Lit("None")]
\* base "src": every source and receiver type; "wf": every wavefield, for a part of the model
Base(k, nd, b, py) ==
  [ kind |-> k, nd |-> nd, py |-> py,
    models |-> [i \in 1..NModels(k) |-> T(IF i % 2 = 1 THEN Size(nd) ELSE <<Ns>> \o Size(nd))],
    src |-> [i \in 1..NSrc(k, nd) |-> IF b = "src" \/ (b = "mix" /\ i = 1) THEN [amp |-> T(<<Ns, 2, Nt>>), loc |-> Loc(nd, i)]
                                      ELSE [amp |-> Absent, loc |-> NoLoc(nd)]],
    rec |-> [i \in 1..NRec(k, nd) |-> IF b = "wf" /\ i > 1 THEN NoLoc(nd) ELSE Loc(nd, i + 1)],
    wf |-> [i \in 1..NWf(k, nd) |-> IF b = "src" \/ (b = "mix" /\ i > 2) THEN Absent
              ELSE T(<<Ns>> \o [d \in 1..nd |-> (IF b = "wf" THEN Size(nd)[d] - 2 ELSE Size(nd)[d]) + Pml(nd)[2 * d - 1] + Pml(nd)[2 * d]])],
    s |-> [Scal EXCEPT !["pml_width"] = Lst(Pml(nd)),
                       !["nt"] = IF b = "wf" THEN Lst(<<Nt>>) ELSE Lit("None"),
                       !["origin"] = IF b = "wf" THEN Lst([d \in 1..nd |-> 2]) ELSE Lit("None"),
                       !["python_backend"] = Lit(IF py THEN "'eager'" ELSE "False")],
    extra |-> {} ]

--------------------------------------------------------------------------
(* changes; each is <<label, call>> *)
Sub(x, i, y) == [x EXCEPT ![i] = y]
DropLast(q) == SubSeq(q, 1, Len(q) - 1)
Literals(x) ==
  {<<ToString(<<a, l>>), [x EXCEPT !.s[a] = Lit(l)]>> : <<a, l>> \in
     UNION {{a} \X (Good[a] \cup BadLits[a]) : a \in Args \ {"python_backend", "origin"}}}
  \cup {<<ToString(<<"python_backend", l>>), [x EXCEPT !.s["python_backend"] = Lit(l)]>> : l \in BadLits["python_backend"]}
  \cup {<<ToString(<<"origin">>), [x EXCEPT !.s["origin"] = Lit("None")]>>}
  \cup {<<ToString(<<"nt", n>>), [x EXCEPT !.s["nt"] = Lst(<<n>>)]>> : n \in {0, Nt, Nt + 1}}
Lists(x) ==
  {<<ToString(<<"grid_spacing", v>>), [x EXCEPT !.s["grid_spacing"] = Lst(v)]>> : v \in
     {[d \in 1..n |-> 5] : n \in 0..(x.nd + 1)} \cup {[d \in 1..x.nd |-> IF d = e THEN z ELSE 5] : e \in 1..x.nd, z \in {0, -5, 6}}}
  \cup {<<ToString(<<"pml_width", v>>), [x EXCEPT !.s["pml_width"] = Lst(v)]>> : v \in
     {[d \in 1..n |-> 1] : n \in 0..(2 * x.nd + 1)} \cup {[d \in 1..(2 * x.nd) |-> IF d = e THEN z ELSE 1] : e \in 1..(2 * x.nd), z \in {0, -1, 3}}}
  \cup {<<ToString(<<"survey_pad", v>>), [x EXCEPT !.s["survey_pad"] = Lst(v)]>> : v \in
     {[d \in 1..n |-> 1] : n \in 0..(2 * x.nd + 1)} \cup {[d \in 1..(2 * x.nd) |-> IF d = e THEN z ELSE 1] : e \in 1..(2 * x.nd), z \in {0, -1, None}}}
  \cup (IF Have(x.wf) = {} THEN {}
        ELSE {<<ToString(<<"origin", v>>), [x EXCEPT !.s["origin"] = Lst(v)]>> : v \in
               {[d \in 1..n |-> 0] : n \in 0..(x.nd + 1)} \cup {[d \in 1..x.nd |-> IF d = e THEN z ELSE 2] : e \in 1..x.nd, z \in {0, -1, 1, 3}}})
\* a dense tensor t that should have the shape t.size
Tensors(t) ==
  {<<ToString(<<"list">>), [t EXCEPT !.cls = "list"]>>, <<ToString(<<"device">>), [t EXCEPT !.dev = "meta"]>>, <<ToString(<<"dtype">>), [t EXCEPT !.dt = "float"]>>}
Shapes(t) ==
  {<<ToString(<<"fewer">>), [t EXCEPT !.size = DropLast(@)]>>, <<ToString(<<"more">>), [t EXCEPT !.size = <<1>> \o @]>>}
  \cup {<<ToString(<<"size", d, z>>), [t EXCEPT !.size[d] = @ + z]>> : d \in {d \in 1..Len(t.size) : TRUE}, z \in {-1, 1}}
Dense1(t) == Tensors(t) \cup Shapes(t)
ModelsCh(x) ==
  {<<ToString(<<"model", i, m[1]>>), [x EXCEPT !.models[i] = m[2]]>> : <<i, m>> \in
     UNION {{i} \X (Dense1(x.models[i]) \cup {<<ToString(<<"one">>), [x.models[i] EXCEPT !.size = <<1>> \o N(x)]>>,
                                              <<ToString(<<"three">>), [x.models[i] EXCEPT !.size = <<3>> \o N(x)]>>,
                                              <<ToString(<<"plain">>), [x.models[i] EXCEPT !.size = N(x)]>>}) : i \in 1..Len(x.models)}}
WfCh(x) ==
  {<<ToString(<<"wavefield", i, w[1]>>), [x EXCEPT !.wf[i] = w[2]]>> : <<i, w>> \in
     UNION {{i} \X (Dense1(x.wf[i]) \cup {<<ToString(<<"none">>), Absent>>}) : i \in Have(x.wf)}}
  \cup (IF Have(x.wf) = {} THEN {} ELSE {<<ToString(<<"no wavefields">>), [x EXCEPT !.wf = [i \in 1..Len(x.wf) |-> Absent]]>>})
\* a location tensor
Points(l, nd, n) ==
  {<<ToString(<<"coordinate", s, k, d, z>>), [l EXCEPT !.pts[s][k][d] = z]>> : <<s, k, d, z>> \in
     UNION {(1..Len(l.pts)) \X (1..l.count) \X {d} \X {-1, 0, 1, n[d] - 1, n[d], n[d] + 5, Ign} : d \in 1..nd}}
  \cup {<<ToString(<<"ignored", s, k>>), [l EXCEPT !.pts[s][k] = [d \in 1..nd |-> Ign]]>> : <<s, k>> \in (1..Len(l.pts)) \X (1..l.count)}
  \cup {<<ToString(<<"twice", s>>), [l EXCEPT !.pts[s][2] = l.pts[s][1]]>> : s \in IF l.count > 1 THEN 1..Len(l.pts) ELSE {}}
  \cup {<<ToString(<<"shots", z>>), [l EXCEPT !.pts = IF z > 0 THEN Append(@, @[1]) ELSE DropLast(@)]>> : z \in {-1, 1}}
  \cup {<<ToString(<<"list">>), [l EXCEPT !.cls = "list"]>>, <<ToString(<<"device">>), [l EXCEPT !.dev = "meta"]>>,
        <<ToString(<<"half">>), [l EXCEPT !.frac = "half"]>>, <<ToString(<<"nan">>), [l EXCEPT !.frac = "nan"]>>, <<ToString(<<"dims">>), [l EXCEPT !.ndim = 2]>>,
        <<ToString(<<"coordinates+">>), [l EXCEPT !.last = nd + 1]>>, <<ToString(<<"coordinates-">>), [l EXCEPT !.last = nd - 1]>>,
        <<ToString(<<"none">>), [l EXCEPT !.have = FALSE]>>,
        <<ToString(<<"single">>), [l EXCEPT !.count = 1, !.pts = [s \in 1..Len(@) |-> <<@[s][1]>>]]>>,
        <<ToString(<<"empty">>), [l EXCEPT !.count = 0, !.pts = [s \in 1..Len(@) |-> <<>>]]>>}
Usable(l, nd) == l.have /\ l.count > 0 /\ l.last = nd /\ l.ndim = 3 /\ Len(l.pts) > 0
SrcCh(x) ==
  {<<ToString(<<"source", i, l[1]>>), [x EXCEPT !.src[i].loc = l[2]]>> : <<i, l>> \in
     UNION {{i} \X Points(x.src[i].loc, x.nd, N(x)) : i \in {i \in 1..Len(x.src) : Usable(x.src[i].loc, x.nd)}}}
  \cup {<<ToString(<<"amplitude", i, a[1]>>), [x EXCEPT !.src[i].amp = a[2]]>> : <<i, a>> \in
     UNION {{i} \X (Dense1(x.src[i].amp) \cup {<<ToString(<<"none">>), Absent>>}) : i \in {i \in 1..Len(x.src) : x.src[i].amp.have}}}
  \cup {<<ToString(<<"no source", i>>), [x EXCEPT !.src[i] = [amp |-> Absent, loc |-> NoLoc(x.nd)]]>> : i \in 1..Len(x.src)}
  \cup {<<ToString(<<"source only", i>>), [x EXCEPT !.src = [j \in 1..Len(@) |-> IF j = i THEN [amp |-> T(<<Ns, 2, Nt>>), loc |-> Loc(x.nd, i)]
                                                                ELSE [amp |-> Absent, loc |-> NoLoc(x.nd)]]]>> : i \in 1..Len(x.src)}
RecCh(x) ==
  {<<ToString(<<"receiver", i, l[1]>>), [x EXCEPT !.rec[i] = l[2]]>> : <<i, l>> \in
     UNION {{i} \X Points(x.rec[i], x.nd, N(x)) : i \in {i \in 1..Len(x.rec) : Usable(x.rec[i], x.nd)}}}
  \cup {<<ToString(<<"no receivers">>), [x EXCEPT !.rec = [j \in 1..Len(@) |-> NoLoc(x.nd)]]>>}
\* arguments of the dimensions above
Higher(nd) == IF nd = 3 THEN {} ELSE IF nd = 2 THEN {"z"} ELSE {"z", "y"}
ExtraCh(x) ==
  {<<ToString(<<"extra", e>>), [x EXCEPT !.extra = @ \cup {e}]>> : e \in
     {<<w, d>> : w \in {"wavefield"} \cup (IF x.kind \in {"scalar", "born"} THEN {} ELSE {"amplitude", "source", "receiver"}), d \in Higher(x.nd)}}
\* the region recomputed for a survey_pad
FitWf(x) ==
  IF Have(x.wf) = {} \/ Single(x) # {} \/ Sizes(x) # {} \/ ~Inside(x) THEN {}
  ELSE {<<ToString(<<"fitting wavefields">>), [x EXCEPT !.wf = [i \in 1..Len(@) |-> IF @[i].have
         THEN T(<<Ns>> \o [d \in 1..x.nd |-> End(x, d) - Beg(x, d) + Pad(x)[2 * d - 1] + Pad(x)[2 * d]]) ELSE @[i]]]>>}
Class(x, g) == CASE g = 1 -> Literals(x) [] g = 2 -> Lists(x) [] g = 3 -> ModelsCh(x) [] g = 4 -> WfCh(x)
                 [] g = 5 -> SrcCh(x) [] g = 6 -> RecCh(x) [] g = 7 -> ExtraCh(x) [] g = 8 -> FitWf(x)
Whole(x) == x.models[1].cls = "tensor" /\ Len(x.models[1].size) >= x.nd
Changes(x) ==
  IF ~Whole(x) THEN {}
  ELSE Literals(x) \cup Lists(x) \cup ModelsCh(x) \cup WfCh(x) \cup SrcCh(x) \cup RecCh(x) \cup ExtraCh(x) \cup FitWf(x)

Init == /\ \E k \in Kinds, nd \in Dims, b \in Bases, py \in Pys : c = Base(k, nd, b, py)
        /\ steps = 0 /\ what = <<>>
Next == /\ steps < Depth
        /\ \E ch \in Changes(c) : c' = ch[2] /\ what' = Append(what, ch[1])
        /\ steps' = steps + 1
\* one change drawn at random instead of all of them, often one that keeps the call consistent
Draw == /\ steps < Depth /\ Whole(c)
        /\ \E S \in {Class(c, RandomElement(1..8))} :
             IF S = {} THEN UNCHANGED <<c, what>>
             ELSE \E ch \in {LET U == {z \in S : Faults(z[2]) = {}}
                             IN RandomElement(IF RandomElement(1..3) = 1 \/ U = {} THEN S ELSE U)} : c' = ch[2] /\ what' = Append(what, ch[1])
        /\ steps' = steps + 1
Walks == Init /\ [][Draw]_<<c, steps, what>>
Spec == Init /\ [][Next]_<<c, steps, what>>
Emit == (Depth = 1 \/ Len(what) > 1) => PrintT("CALL " \o ToJson([c |-> c, what |-> what, faults |-> Faults(c)]))
BaseIsConsistent == steps = 0 => Faults(c) = {}
=============================================================================
