SPECIFICATION Spec
CONSTANTS
  S = 5040
  Ns = {1, 2, 3}
  Seeds = {3, 5, 8, 11, 14, 17, 21, 23, 26, 31, 33, 34, 38, 40, 43, 47, 52, 55, 57, 60, 63, 66, 71, 74}
  Lims = {0, 1, 3}
  TapeLen = 89
  Emit = TRUE
INVARIANTS Product3
