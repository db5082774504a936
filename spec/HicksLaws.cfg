SPECIFICATION Spec
CONSTANT Den = 10
INVARIANTS Symmetric Antisymmetric Partition DipoleFlat Surface
CHECK_DEADLOCK FALSE
