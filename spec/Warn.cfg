SPECIFICATION Spec
CONSTANTS
  Kinds = {"scalar", "born", "acoustic", "elastic"}
  Thin = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
