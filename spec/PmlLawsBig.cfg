SPECIFICATION Spec
CONSTANTS
  MaxW = 12
  MaxN = 8
  Damps = {0, 1000, 20000, 100000}
  Shifts = {0, 3000, 50000}
INVARIANTS ZeroOutsidePml NothingInside Ranges Balance Mirror Deeper Deepest RickerLaw
CHECK_DEADLOCK FALSE
