SPECIFICATION Spec
CONSTANTS
  Len1 = {1, 2, 3, 4, 5, 6}
  NSteps = 8
INVARIANTS Advances
