"""Writes /verif/properties.jsonl (kept as a script so the long lines stay reviewable)."""
import json, pathlib
S = "src/deepwave/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook="none"):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": [S + f for f in files],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": list(observe), "hook_needed": hook}})

prop("A01", "Scalar propagation is exactly the documented discrete wave equation with CPML",
 "Every internal step of scalar() maps the wavefields (current, previous, and the psi/zeta memory variables of every dimension) to those of the central-difference scalar wave equation with convolutional PML at the requested spatial order (2, 4, 6 or 8), on the model extended outwards by edge replication (memory-variable inputs count only inside their PML strip), and every source adds -v^2 dt^2 f(t) at its cell after the update. Receivers hold the wavefield at their cell at the start of step t. This holds for every number of dimensions, per-dimension spacing, per-side PML width, model (shared or one per shot), initial wavefields, source and receiver placement, and for both signs of dt.",
 ["inputs", "configurations"], "all models, spacings, PML widths, orders, dimensions, wavefields, sources, receivers, numbers of steps",
 "Tests compare a few homogeneous-model traces with an analytic answer to loose tolerances and compare the Python with the C backend; an error of one coefficient, one PML region boundary, one cell near an edge, or one both backends share stays inside the tolerances.",
 ["scalar.py", "scalar.c", "regular_grid.py", "regular_grid.h", "common.py"],
 [("forward kernel", S+"scalar.c forward"), ("python step", S+"scalar.py _forward_step"), ("stencils", S+"regular_grid.h"), ("source scaling", S+"scalar.py scalar")],
 [("wavefield_0, wavefield_m1, psi*, zeta*", "current/previous wavefields and CPML memory", S+"scalar.py")],
 ["scalar() outputs", "forward_callback wavefields"])
prop("A02", "Born propagation is the background plus its exact first-order perturbation",
 "scalar_born() propagates the background wavefield exactly as scalar() does, and its scattered wavefield obeys the derivative of that same discrete system with respect to v in the direction of the scattering potential (including the derivative of the source scaling and the CPML memory variables of the scattered field). Background receivers sample the background field and scattered receivers the scattered field at the start of step t. The background model is extended outwards by edge replication and the scattering potential by zeros. The scattered field is linear in the scattering potential and in the initial scattered wavefields.",
 ["inputs", "configurations"], "all background and scattering models, orders, dimensions, PML widths, initial wavefields and acquisition layouts",
 "Tests compare one or two configurations with a finite difference of scalar() or an analytic point-scatterer to percent-level tolerances.",
 ["scalar_born.py", "scalar_born.c", "regular_grid.h"],
 [("forward kernel", S+"scalar_born.c forward"), ("source scaling", S+"scalar_born.py scalar_born")],
 (), ["scalar_born() outputs", "forward_callback wavefields"])
prop("A03", "Acoustic propagation is exactly the documented staggered-grid system with CPML",
 "Every internal step of acoustic() advances particle velocities with the gradient of pressure, velocity sources, then pressure with the divergence of velocity, then pressure sources, using the staggered stencils of the requested order, buoyancy 2/(rho_i + rho_{i+1}) at half cells (zero on the outer half cell), bulk modulus rho v^2, and CPML memory variables. Sources are scaled by dt times the bulk modulus (pressure) or buoyancy (velocity) and every receiver type samples its own field at the start of step t. It holds for all dimensions, spacings, PML widths, batched models, initial wavefields and both signs of dt.",
 ["inputs", "configurations"], "all models, spacings, orders, PML widths, dimensions, wavefields, sources and receivers of every type",
 "Tests use homogeneous or smooth models and loose analytic tolerances; staggering errors at edges, per-dimension index mix-ups and order-specific taps are invisible there.",
 ["acoustic.py", "acoustic.c", "staggered_grid.py", "staggered_grid.h"],
 [("forward kernel", S+"acoustic.c forward"), ("model preparation", S+"acoustic.py prepare_models"), ("edge zeroing", S+"acoustic.py zero_edges_and_interiors")],
 (), ["acoustic() outputs", "forward_callback wavefields and models"])
prop("A04", "Elastic propagation is exactly the documented velocity-stress system with CPML",
 "Every internal step of elastic() advances particle velocities from stress derivatives, velocity sources, then normal and shear stresses from velocity derivatives, then pressure sources, using the staggered stencils of the requested order, arithmetic density averages and harmonic mu averages (zero where any averaged mu is zero and on outer half cells), and CPML memory variables for every derivative. Velocity sources are scaled by dt times buoyancy, pressure sources enter every normal stress with -dt, and pressure receivers hold minus the mean normal stress. It holds in one, two and three dimensions, for every spacing, PML width, batched model, initial wavefield and both signs of dt.",
 ["inputs", "configurations"], "all lamb/mu/buoyancy models, orders, spacings, PML widths, dimensions, wavefields, sources and receivers of every type",
 "The elastic tests compare with an analytic solution at tolerances of several percent and test mostly two dimensions; an error in one of 27 fields' updates or in a boundary strip is below them.",
 ["elastic.py", "elastic.c", "staggered_grid.py", "staggered_grid.h"],
 [("forward kernel", S+"elastic.c forward"), ("parameters", S+"elastic.py prepare_parameters"), ("output order", S+"elastic.py elastic")],
 (), ["elastic() outputs", "forward_callback wavefields and models"])
prop("G01", "Scalar and Born gradients are the exact adjoint of the discrete propagation",
 "For every differentiable loss of the outputs of scalar() or scalar_born(), the gradients with respect to the velocity and scattering models, source amplitudes and every initial wavefield are exactly the derivatives of the discrete propagation (every internal step sampled: gradient sampling interval one and no sub-stepping). This holds for shared and per-shot models, any subset of inputs requiring gradients, losses on receivers, on final wavefields or both, and every order, dimension and PML width.",
 ["inputs", "configurations"], "all losses, models, acquisition layouts, subsets of differentiated inputs, numbers of shots",
 "gradcheck-style tests run on a handful of tiny configurations with stochastic projections and tolerances; many combinations of requires_grad, batching, PML asymmetry and loss location are never sampled.",
 ["scalar.py", "scalar.c", "scalar_born.py", "scalar_born.c"],
 [("adjoint kernels", S+"scalar.c backward"), ("Born adjoint kernels", S+"scalar_born.c backward, backward_sc"), ("autograd glue", S+"scalar.py ScalarForwardFunc.backward")],
 (), ["torch.autograd.grad of propagator outputs"])
prop("G02", "Acoustic and elastic gradients are the exact adjoint of the discrete propagation",
 "For every differentiable loss of the outputs of acoustic() or elastic(), the gradients with respect to every model (v, rho; lamb, mu, buoyancy), every type of source amplitude and every initial wavefield are exactly the derivatives of the discrete propagation (every internal step sampled: gradient sampling interval one and no sub-stepping). This holds for shared and per-shot models, any subset of inputs requiring gradients, and every order, dimension and PML width.",
 ["inputs", "configurations"], "all losses, models, source/receiver types, subsets of differentiated inputs, numbers of shots",
 "Tests use gradcheck on a few small configurations; the elastic adjoint has dozens of terms and boundary strips per dimension and order that those do not separate.",
 ["acoustic.py", "acoustic.c", "elastic.py", "elastic.c"],
 [("acoustic adjoint", S+"acoustic.c backward"), ("elastic adjoint", S+"elastic.c backward"), ("autograd glue", S+"elastic.py ElasticForwardFunc.backward")],
 (), ["torch.autograd.grad of propagator outputs"])
prop("G03", "Double backward through scalar() gives exact second derivatives",
 "Differentiating the gradients of scalar() again (Hessian-vector products with respect to velocity, source amplitudes and initial wavefields, and the dependence of gradients on the upstream gradients) gives exactly the second derivatives of the discrete propagation. It holds for losses nonlinear in the outputs, mixed derivatives between different inputs, and every order, dimension and PML width.",
 ["inputs", "configurations"], "all losses, pairs of inputs, models and acquisition layouts",
 "gradgradcheck is run on a few tiny cases with one set of requires_grad flags.",
 ["scalar.py", "scalar_born.c", "scalar.c"],
 [("double backward", S+"scalar.py ScalarBackwardFunc.backward"), ("Born adjoint", S+"scalar_born.c backward")],
 (), ["torch.autograd.grad with create_graph=True"])
prop("G04", "The gradient sampling interval changes only the model gradients, predictably",
 "For any model_gradient_sampling_interval m of at least one, and any internal sub-stepping, all outputs, callbacks' wavefields, and the gradients with respect to sources and initial wavefields are the same as with m = 1. The model gradient is the sum over the sampled internal steps t = 0, m*r, 2*m*r, ... (r the number of internal steps per input sample) of that step's contribution, each multiplied by m*r, plus the exact contribution of the models through source scaling and model preparation, including when m does not divide the number of steps or exceeds it.",
 ["inputs", "configurations"], "all intervals, including ones that do not divide or exceed the number of steps, all propagators",
 "Tests use intervals that divide the number of steps and check only that the gradient is similar.",
 ["scalar.py", "scalar_born.py", "acoustic.py", "elastic.py", "common.py"],
 [("step counting", S+"common.py n_sampling_steps"), ("snapshot index", S+"scalar.c forward/backward")],
 (), ["outputs and gradients as the interval varies"])
prop("T01", "Callbacks fire on schedule, observe the true state, and never change results",
 "The forward callback is called exactly at steps 0, f, 2f, ... below nt with that step number and the wavefields as they are at the start of that step, and the backward callback once per chunk of f steps counted from the end (at steps nt-f, nt-2f, ..., the last at step 0), when the adjoint wavefields have been propagated back to the start of that step (they are then the derivatives with respect to the state there, the previous wavefield of scalar and Born with opposite sign) and the gradients include exactly the steps at or after it. Adding callbacks or changing callback_frequency never changes any output or gradient, for any number of steps, shots, threads and storage mode. In backward callbacks the reported gradients at step 0 are the final ones.",
 ["schedules", "inputs", "configurations"], "all nt, callback frequencies (dividing or not, larger than nt), numbers of shots and threads, propagators",
 "Tests count calls for a few frequencies; ping-pong buffer parity, chunk remainders and per-thread accumulation only matter for particular (nt, frequency, shots, threads) combinations.",
 ["scalar.py", "scalar_born.py", "acoustic.py", "elastic.py", "common.py"],
 [("forward chunk loop", S+"scalar.py ScalarForwardFunc.forward"), ("backward chunk loop", S+"scalar.py ScalarBackwardFunc.forward")],
 (), ["callback invocations", "outputs and gradients"])
prop("T02", "Propagation can be stopped and resumed at any step without changing anything",
 "Propagating n1 steps and then n2 more from the returned wavefields gives the same final wavefields, receiver data and (through autograd) the same gradients as propagating n1+n2 steps at once, for every split into any number of pieces, for all four propagators. Zero-length pieces are identities, and a piece started from zero wavefields equals one started with none given.",
 ["histories", "inputs"], "all histories of splits, including zero- and one-step pieces, propagators, orders, PML widths",
 "One test splits one propagator in two at one point; the returned tuple has up to 27 wavefields, each of which matters only in its own PML strip or parity.",
 ["scalar.py", "scalar_born.py", "acoustic.py", "elastic.py", "common.py"],
 [("wavefield in/out", S+"common.py create_or_pad, prepare_wavefields"), ("output order", S+"elastic.py elastic")],
 (), ["outputs chained into initial wavefields"])
prop("B01", "Shots are independent of each other, of batch composition and of thread count",
 "Each shot's outputs depend only on that shot's own models, sources, receivers and initial wavefields: batching, reordering or splitting shots, padding the source or receiver lists with ignored entries, and changing the number of threads or shots changes no shot's outputs. Gradients for a shared model are the sum of the per-shot gradients, and those of per-shot inputs are each shot's own.",
 ["schedules", "inputs", "configurations"], "all batchings and orders of shots, thread counts from 1 upwards, shared and per-shot models, propagators",
 "Tests use one or two shots and one fixed thread count; races or mis-strided per-thread buffers need several shots per thread with distinct models.",
 ["scalar.c", "scalar_born.c", "acoustic.c", "elastic.c", "scalar.py", "common.py"],
 [("shot loop", S+"scalar.c forward (omp parallel for)"), ("gradient reduction", S+"scalar.c combine_grad")],
 (), ["outputs and gradients under re-batching"])
prop("S01", "Snapshot storage never changes results, never mixes runs, and cleans up",
 "For every storage mode (device, cpu, disk) outputs and gradients are identical, however forward and backward passes of several live propagations are interleaved, repeated (retain_graph) or differentiated twice, and compression changes model gradients only by quantisation error; mode none gives the same outputs and all gradients except the model's. Disk mode keeps its files only inside its own newly created directory under storage_path, which exists no longer than its propagation's graph is alive.",
 ["histories", "schedules", "configurations"], "all interleavings of forward, backward, repeated backward and release over several live propagations, modes, step counts and callback frequencies",
 "Tests run one forward and one backward per mode; interference needs two live graphs or repeated backward passes.",
 ["common.py", "storage_utils.c", "storage_utils.h", "simple_compress.c", "scalar.py", "elastic.py", "acoustic.py", "scalar_born.py"],
 [("allocation", S+"common.py StorageManager"), ("directories", S+"common.py TemporaryStorage"), ("snapshot IO", S+"storage_utils.c")],
 [("deepwave_tmp_*", "live snapshot directories", S+"common.py TemporaryStorage")], ["gradients", "directory listing of storage_path"])
prop("E01", "survey_pad and origin select exactly the documented part of the model",
 "With survey_pad, the simulated region of each dimension is the smallest containing every non-ignored source and receiver of all shots extended by the pad on each side (to the model's edge where the pad is None) and clipped to the model; with initial wavefields it is the region starting at origin with the wavefields' shape (less PML). Running with survey_pad or origin equals running on the manually sliced models with shifted locations, for every shot and every type of source and receiver, with gradients of the full model zero outside the region's influence.",
 ["inputs", "configurations"], "all location sets (with ignored entries), pads (scalar, per side, None), origins, model shapes, dimensions",
 "Tests check some extents by example; combinations of several location types, IGNORE entries, None sides and clipping at each edge are not enumerated.",
 ["common.py"],
 [("extents", S+"common.py set_survey_pad, get_survey_extents_from_locations"), ("extraction", S+"common.py extract_models, extract_locations")],
 (), ["shape and content of outputs and gradients"])
prop("C01", "The internal time step obeys the CFL limit and data keep the user's sampling",
 "The internal time step is dt divided by the smallest positive integer r that makes |dt|/r at most 0.6 / (sqrt(sum 1/dx_i^2) * max_vel), with the sign of dt kept, and outputs have the user's number of samples at the user's interval whatever r is. With r > 1 band-limited source amplitudes are interpolated and receiver data decimated consistently (upsampling then downsampling returns the signal; constants stay constants), and an r of one leaves amplitudes and data untouched.",
 ["inputs", "configurations"], "all dt, spacings, velocities, dimensions, numbers of samples (even and odd), taper and pad settings",
 "Tests check a few ratios; the rounding at exact multiples, anisotropic spacing, negative dt, odd lengths and max_vel overrides are unbounded families.",
 ["common.py"],
 [("ratio", S+"common.py cfl_condition_n"), ("resampling", S+"common.py upsample, downsample"), ("amplitudes", S+"common.py set_source_amplitudes")],
 (), ["common.cfl_condition_n", "shapes and values of propagator outputs", "common.upsample/downsample"])
prop("H01", "Hicks interpolation uses the right Kaiser-windowed sinc nodes and weights",
 "For every fractional location, half-width, and set of free surfaces, the Hicks object's grid locations and weights are the Kaiser-windowed sinc nodes around the location: nodes within the half-width only, weights determined by distance, nodes beyond a free surface folded back with opposite sign, duplicates merged, locations on grid points kept as single unit-weight nodes. source() and receiver() are adjoint to each other, linear, do not mix shots, and depend neither on the order in which other locations were given nor on objects created before.",
 ["inputs", "histories", "configurations"], "all locations, half-widths, free-surface sets, shots, subsets of shot indices, and order of construction",
 "Tests use a few locations and one half-width per case; caching across locations and truncation at particular fractions need many locations.",
 ["location_interpolation.py"],
 [("weights", S+"location_interpolation.py _get_hicks_for_one_location_dim"), ("assembly and caching", S+"location_interpolation.py _get_hicks_locations_and_weights"), ("apply", S+"location_interpolation.py Hicks.source, Hicks.receiver")],
 (), ["Hicks.get_locations, source, receiver"])
prop("V01", "Callback state exposes every field and model under its own name and view",
 "In every callback each documented wavefield, model and (in backward callbacks) gradient name returns that quantity and no other, in one, two and three dimensions, for every propagator and both kinds of backend. The view full is the whole padded tensor, pml drops the finite-difference padding, inner also drops the PML, and each is the correspondingly sliced part of the others; unknown names and views are rejected. A backward callback that changes model gradients in place at its last step (step 0) changes the gradients that are returned accordingly, in whichever view it does so. A forward callback that changes wavefields in place changes the propagation from that step on.",
 ["inputs", "configurations"], "all propagators, dimensions, orders, asymmetric PML widths, names and views",
 "Tests ask for one or two names in two dimensions with symmetric PML.",
 ["common.py", "scalar.py", "scalar_born.py", "acoustic.py", "elastic.py"],
 [("views", S+"common.py CallbackState"), ("names", S+"elastic.py ElasticForwardFunc.forward")],
 (), ["CallbackState.get_wavefield/get_model/get_gradient"])
prop("W01", "Module wrappers equal the functions, and no call mutates its inputs",
 "Scalar, ScalarBorn, Acoustic and Elastic modules give for any forward arguments exactly the result of the corresponding function called with the module's models and spacing, and differentiate with respect to a model exactly when asked to at construction; so do copied, pickled and restored modules and torch.func.functional_call, and arguments given by position in the documented order mean the same as by name. No propagation, backward pass or callback-free run modifies any tensor the caller passed in, and repeating a call gives the same result whatever calls were made before.",
 ["histories", "inputs", "configurations"], "all argument subsets and all sequences of calls on shared inputs",
 "Tests mostly call the modules or the functions with a few arguments and do not compare inputs before and after; the elastic wrapper passes over sixty arguments by hand.",
 ["scalar.py", "scalar_born.py", "acoustic.py", "elastic.py", "common.py"],
 [("wrappers", S+"elastic.py Elastic.forward"), ("padding copies", S+"common.py create_or_pad")],
 (), ["module and function outputs", "input tensors before and after"])
prop("I01", "Invalid inputs are rejected before anything is propagated, valid ones accepted",
 "Every call whose arguments are inconsistent (location out of the model or not integer, the same cell used twice by one shot, mismatching batch, device, dtype or dimensions, amplitudes without locations or the reverse, contradictory nt, wrong accuracy, spacing, PML width, sampling, taper, storage or callback settings, wavefields of the wrong shape) raises an exception instead of returning a result, and the same call with the fault removed succeeds. A rejected call leaves no files behind and does not affect later calls.",
 ["inputs", "fault_sequences"], "all single argument faults in all propagators, at every position (shot, location, dimension, type)",
 "Tests give one example per message, mostly through internal helpers; whether each propagator's own argument path reaches the check, for each shot and dimension, is not covered.",
 ["common.py", "scalar.py", "scalar_born.py", "acoustic.py", "elastic.py"],
 [("validation", S+"common.py setup_propagator and helpers"), ("uniqueness and bounds", S+"common.py extract_locations, check_locations_are_within_model")],
 (), ["exceptions from the public functions"])
prop("P01", "Python and compiled backends, and both precisions, give the same results",
 "For every call both support, the pure-Python backend gives the same outputs, callbacks and gradients as the compiled one up to rounding, for all four propagators, orders, dimensions, PML widths, source and receiver types. Single-precision results equal double-precision ones to single precision.",
 ["inputs", "configurations"], "all calls supported by both backends, both dtypes",
 "Tests compare backends on selected configurations with tolerances and few initial wavefields.",
 ["scalar.py", "scalar_born.py", "acoustic.py", "elastic.py", "regular_grid.py", "staggered_grid.py", "backend_utils.py"],
 [("python propagators", S+"scalar.py scalar_python"), ("dispatch", S+"backend_utils.py get_backend_function")],
 (), ["outputs, callbacks and gradients of both backends"])
prop("M01", "PML profiles, wavelets and model conversions follow their definitions",
 "The CPML profiles are zero outside the PML (half-cell shifted for staggered points), mirror-symmetric for equal widths, have decay a in (0,1) non-decreasing damping towards the edge, with b between -1 and 0, and do not depend on the sign of dt; the lamb/mu/buoyancy and vp/vs/rho conversions are mutually inverse; ricker() is symmetric about its peak time with unit peak. With a PML, outgoing waves leave the domain: the recorded data match those of a larger domain to a small relative error.",
 ["inputs", "configurations"], "all widths (asymmetric, zero), frequencies, velocities, grid sizes, signs of dt; all models",
 "Tests check a PML example and a conversion example.",
 ["common.py", "regular_grid.py", "staggered_grid.py", "wavelets.py"],
 [("profiles", S+"common.py setup_pml"), ("placement", S+"regular_grid.py, staggered_grid.py set_pml_profiles"), ("conversions", S+"common.py vpvsrho_to_lambmubuoyancy"), ("wavelet", S+"wavelets.py ricker")],
 (), ["profile tensors", "conversion results", "receiver data"])
prop("F01", "Forward-mode, vectorised and higher derivatives of the Python backend are exact",
 "With the eager Python backend every propagator can be put through torch.func transforms with respect to its property models: jvp gives the exact directional derivative of every output, vjp its exact adjoint, vmap over models gives for each element what a separate call gives, and nestings of them give exact second derivatives. This holds for every propagator, number of dimensions, order, PML width, layout of sources and receivers, initial wavefield and callback schedule.",
 ["inputs", "configurations"], "all models and directions, propagators, dimensions, orders, PML widths, wavefields",
 "There is one example of each transform in the tests, on one-dimensional or default calls without initial wavefields.",
 ["scalar.py", "scalar_born.py", "acoustic.py", "elastic.py", "common.py", "regular_grid.py", "staggered_grid.py"],
 [("python propagators", S+"scalar.py scalar_python (and the other propagators)"), ("padding", S+"common.py create_or_pad"), ("dispatch", S+"backend_utils.py")],
 (), ["outputs and tangents of torch.func.jvp/vmap/vjp/grad over the public functions"])
prop("R01", "Equivalent ways to ask for the same experiment give the same results",
 "Results belong to the experiment and not to the way it is asked for. Grouping the shots into calls and ordering them in any way, permuting sources or receivers within a shot and placing ignored entries among them, adding the results of two calls that share out the sources and initial wavefields, preceding everything by silent steps, passing zero initial wavefields, cutting the time into pieces chained by their wavefields, exchanging the axes together with everything that lives on them (and reversing them for scalar and Born), scaling amplitudes and wavefields, passing a shared model with or without a batch dimension, expanded or copied, any memory layout of the tensors, list, tuple or scalar arguments, stating defaults explicitly, selecting the whole model as region or asking for a region of a larger model, any storage, thread count or set of differentiated inputs, the modules or functions, arguments by name or position, the thread that calls and other calls at the same time, the default dtype, deterministic, gradient and saved-tensor modes of torch: all give the same receiver data, final wavefields, states seen by forward and backward callbacks and gradients up to rounding (with lossy compression, model gradients to its accuracy).",
 ["inputs", "configurations", "histories"], "all experiments and all sequences of such changes, all propagators, dimensions, both backends and precisions",
 "A test compares one pair of calls at a time; which of the very many combinations of layout, grouping, cut and axis order goes wrong is not known in advance.",
 ["common.py", "scalar.py", "scalar_born.py", "acoustic.py", "elastic.py", "scalar.c", "scalar_born.c", "acoustic.c", "elastic.c"],
 [("argument handling", S+"common.py setup_propagator"), ("padding and extension", S+"common.py create_or_pad, extend"), ("axis handling", S+"acoustic.py, elastic.py wavefield orders"), ("kernels per dimension", S+"*.c DIM macros")],
 (), ["outputs, callbacks and gradients of pairs of calls"])
prop("D01", "A failing disk is reported, and never turned into wrong results",
 "When snapshots kept on disk cannot be stored or read back completely (the disk fills up at any moment of the forward pass, snapshot files are shortened or removed before or during the backward pass), the call in which that happens raises an exception, for every propagator, with and without compression. No call ever returns outputs or gradients that differ from those without the fault, and none crashes or raises without a fault that matters to it. Afterwards no files are open or left behind and the next propagation is right.",
 ["crash_points", "histories", "inputs"], "all moments and sizes of faults, all propagators, chunkings and storage modes",
 "No test makes storage fail; the fault can hit any byte of any file at any chunk.",
 ["storage_utils.c", "scalar.c", "scalar_born.c", "acoustic.c", "elastic.c", "common.py"],
 [("reading and writing", S+"storage_utils.c"), ("opening and closing, error results", S+"scalar.c, scalar_born.c, acoustic.c, elastic.c"), ("directory", S+"common.py TemporaryStorage"), ("errors raised", S+"scalar.py, scalar_born.py, acoustic.py, elastic.py")],
 (), ["outputs and gradients", "exceptions", "files and descriptors"])
prop("N01", "Users are warned exactly when their parameters make results doubtful",
 "Every propagator gives one warning for each of these that holds, and no other: pml_freq is not given (and 25 is used); pml_freq is above the Nyquist frequency; max_vel is below the largest absolute speed in the model; the smallest nonzero speed (of either wave type) and the largest grid spacing give fewer than six cells per wavelength at pml_freq; the model has no nonzero speed, so that this cannot be checked; at least twenty internal steps per time step are needed; initial wavefields come without an origin. A warned call is otherwise carried out.",
 ["inputs", "configurations"], "all combinations of models, spacings, time steps of either sign, frequencies and speeds, all propagators and dimensions",
 "Tests look for a few single warnings through internal helpers, never for their absence or for combinations.",
 ["common.py", "scalar.py", "scalar_born.py", "acoustic.py", "elastic.py"],
 [("frequency, speed and wavelength", S+"common.py set_pml_freq, set_max_vel, check_points_per_wavelength"), ("time step", S+"common.py cfl_condition_n"), ("speeds in the model", S+"elastic.py, acoustic.py, scalar.py, scalar_born.py"), ("origin", S+"common.py get_survey_extents_from_wavefields")],
 (), ["warnings issued by the public functions"])
prop("K01", "Documented helpers and modules accept consistent arguments, reject all others, and change none",
 "The module constructors, Hicks and its methods, upsample, downsample, cosine_taper_end, cfl_condition_n, ricker and vmapped propagators raise an exception for every argument of a wrong class, range, size or value and for arguments that contradict each other (a free surface without model_shape, per-point settings or amplitudes of another size than the locations, shot_idxs that do not match, max_vel missing where the speeds are transformed, transforms of anything but property models), and accept all others, whatever else is changed along with them. They change none of their arguments (except cosine_taper_end, which tapers in place), the same call gives the same result whatever calls were made before, and a module's parameters hold the given models and require gradients exactly as requested.",
 ["inputs", "histories"], "all combinations of right and wrong values of several arguments of every helper",
 "Tests check single wrong arguments of some helpers; which combination slips through is not known in advance.",
 ["location_interpolation.py", "common.py", "wavelets.py", "scalar.py", "scalar_born.py", "acoustic.py", "elastic.py"],
 [("Hicks", S+"location_interpolation.py Hicks.__init__, source, receiver"), ("resampling", S+"common.py _validate_sample_args, cosine_taper_end"), ("time step", S+"common.py cfl_condition_n"), ("modules", S+"scalar.py Scalar, scalar_born.py ScalarBorn, acoustic.py Acoustic, elastic.py Elastic"), ("transforms", S+"common.py check_inputs_not_vmapped, is_inside_vmap")],
 (), ["return values and exceptions of the helpers", "module parameters"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
