SPECIFICATION Spec
CONSTANTS
  S = 5040
  Ns = {3, 4, 6}
  Vals = 4
  LimsG = {0, 1, 2, 3, 4, 5}
INVARIANTS Telescopes
