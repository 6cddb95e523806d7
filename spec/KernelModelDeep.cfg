SPECIFICATION Spec
CONSTANTS
  S = 5040
  N = 6
  V = 4
  Speeds = {1, 2}
  Lims = {0, 1, 2, 3, 4, 5, 6, 7}
INVARIANTS Conservation TVDim Bounded Constant Shifted Mirror UnitShift
