SPECIFICATION Spec
CONSTANTS
  Kinds = {"scalar", "born", "acoustic", "elastic"}
  Dims = {1, 2, 3}
  Bases = {"src", "wf", "mix"}
  Pys = {TRUE, FALSE}
  Depth = 1
INVARIANTS BaseIsConsistent Emit
CHECK_DEADLOCK FALSE
