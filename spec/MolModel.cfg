SPECIFICATION Spec
CONSTANTS
  TPU = 1
  Lens = {1, 2, 3}
INVARIANTS Exact Ordered
