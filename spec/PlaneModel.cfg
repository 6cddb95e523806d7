SPECIFICATION Spec
CONSTANTS
  S = 5040
  Ns = {2, 3}
  Seeds = {1, 2}
  Lims = {0, 1, 3}
  Emit = FALSE
INVARIANTS Exchange Reduction Product
