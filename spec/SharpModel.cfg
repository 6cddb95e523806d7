SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1, 3}
  N = 5
  Emit = TRUE
INVARIANTS Mirror Between Flatness Conserves WeightSum Optimal
