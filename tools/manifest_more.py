TR = ("trace validation: behaviours recorded from the real code are checked with TLC, exactly (residues modulo a "
      "prime), against the TLA+ specification of the propagators (spec/WaveTrace.tla")
def tr(more, note, level="model_checking"):
    return (TR + more + ")", level, note)
MORE = {
    "T01": tr(", TimeLoop.tla", "Callback schedules, the state every callback sees, adjoint state and gradients of "
              "every backward callback as derivatives with respect to the state and models from that step on"),
    "T02": tr("", "The specification runs once; the code runs in random pieces, gradients through all of them"),
    "B01": tr("", "3-7 shots on 1-8 threads, each shot specified on its own"),
    "E01": tr(", Extents.tla", "Models larger than the simulated region; region computed by the specification"),
    "V01": tr(", and walks of spec/Equiv.tla in which callbacks write to wavefields or gradients", "Every name in every view in every "
              "callback, forward and backward, compiled and Python; gradients changed in place by a callback"),
    "W01": tr(", and walks of spec/Equiv.tla that ask for an experiment through modules (also copied, restored, functional) "
              "or by position, judged by spec/EquivTrace.tla", "Module wrappers, repeated calls and backward passes, inputs compared "
              "before and after; every argument of the modules with values that matter"),
    "P01": tr(", and calls of the same experiment for every backend and precision drawn by TLC from spec/Equiv.tla, their "
              "results compared by spec/EquivTrace.tla", "The eager Python backend against the same exact specification as "
              "the compiled one; jit and compile modes and single precision on experiments of any size"),
    "F01": tr("", "torch.func jvp, vmap, vjp and nestings over the eager Python backend; the specification over dual numbers "
              "and nilpotents gives every tangent exactly"),
    "R01": ("generated behaviours: TLC draws experiments and walks of meaning-preserving changes from spec/Equiv.tla (checking "
            "that each change keeps the meaning), every call on a walk is made on the real code, and spec/EquivTrace.tla "
            "compares the results", "model_checking",
            "21 kinds of changes in walks of up to 8, all propagators, 1-3 dimensions, up to 18 steps and 30 cells"),
    "S01": ("exhaustive TLC model checking of the storage protocol (spec/Storage.tla), schedules generated by TLC "
            "(spec/StorageHist.tla) replayed into the real code, and the recorded gradients and file events checked "
            "with TLC (spec/StorageTrace.tla)", "model_checking",
            "Every storage mode and compression, several propagations alive at once, checkpointing, repeated "
            "backward passes, abandoned graphs; gradients against device storage, directories left behind"),
    "C01": ("trace validation: recorded time step choices, resampled series and coarse/fine propagations checked with TLC "
            "against spec/Resample.tla (exact integer CFL condition, fixed-point low-pass kernels), whose laws TLC checks "
            "exhaustively (spec/ResampleLaws.tla)", "model_checking",
            "cfl_condition(_n), upsample, downsample and all four propagators, both signs of dt, ratios up to ~90"),
    "H01": ("trace validation: nodes and weights of recorded Hicks objects checked with TLC against spec/Hicks.tla "
            "(fixed-point Kaiser-windowed sinc and dipole kernels, folding), whose laws TLC checks exhaustively "
            "(spec/HicksLaws.tla)", "model_checking",
            "Half-widths 1-10, monopoles and dipoles, any free surfaces, through source() and receiver()"),
    "M01": ("trace validation: decay and coupling of every memory variable, wavelets, conversions and absorption recorded "
            "through the public functions and checked with TLC against spec/Pml.tla (fixed-point profiles and wavelet), "
            "whose laws TLC checks exhaustively (spec/PmlLaws.tla)", "model_checking",
            "All propagators, 1-3 dimensions, accuracies, asymmetric and zero widths, both signs of dt; "
            "absorption against a domain whose edges are out of reach, at most 3 %"),
    "I01": ("exhaustive generation: TLC enumerates every single change of consistent calls, and random histories of changes, "
            "with the faults that spec/Contract.tla (spec/ContractGen.tla) finds in each; every call is made on the real code",
            "model_checking", "About 32,000 calls: all propagators, 1-3 dimensions, both backends; accepted exactly when "
            "the specification finds no fault, rejected before the first step, without files, without effect on later calls"),
    "D01": ("exhaustive TLC model checking of the snapshot files of a disk that fails (spec/DiskFault.tla, with refuted "
            "controls), faults drawn by TLC (spec/DiskFaultHist.tla) injected into real propagations, and the recorded "
            "outcomes checked with TLC (spec/DiskFaultTrace.tla)", "model_checking",
            "File size limits, shortened and removed files at every chunk, all propagators, all storage modes"),
    "N01": ("exhaustive generation: TLC enumerates calls and the warnings each must give (spec/Warn.tla, exact integer "
            "conditions); every call is made on the real code", "model_checking",
            "About 14,000 calls (thorough: 97,000): all propagators, 1-3 dimensions"),
    "K01": ("exhaustive generation: TLC enumerates every combination of up to three changed arguments of the helpers with the "
            "faults that spec/Helpers.tla finds in each; every call is made on the real code", "model_checking",
            "About 47,000 calls (thorough: 370,000 with four changed arguments): modules, Hicks, resampling, CFL, wavelets, vmap"),
}
