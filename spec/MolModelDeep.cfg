SPECIFICATION Spec
CONSTANTS
  TPU = 1
  Lens = {1, 2, 3, 4, 5, 6}
INVARIANTS Exact Ordered
