SPECIFICATION Spec
CONSTANTS
  S = 5040
  Ns = {1}
  Seeds = {1, 2, 3}
  Lims = {0, 1}
  TapeLen = 89
  Emit = FALSE
INVARIANTS Exchange3 Product3 Reduction3
