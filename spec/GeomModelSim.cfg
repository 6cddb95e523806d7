CONSTANTS Ls = {0, 3, 7, 10}
 Us = {4, 7, 10, 20}
 Ns = {1, 2, 3, 5}
 MaxDim = 3
 MaxOps = 20
 Emit = 1
SPECIFICATION Spec
INVARIANTS Current Geometry Report
CHECK_DEADLOCK FALSE
