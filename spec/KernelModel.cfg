SPECIFICATION Spec
CONSTANTS
  S = 5040
  N = 4
  V = 3
  Speeds = {1, 2}
  Lims = {0, 1, 2, 3, 4, 5}
INVARIANTS Conservation TVDim Bounded Constant Shifted Mirror UnitShift
