SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1, 2, 3}
  N = 6
  Emit = TRUE
INVARIANTS Mirror Between Flatness Conserves WeightSum Optimal
