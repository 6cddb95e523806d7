CONSTANTS Ls = {0, 2}
 Us = {1, 4}
 Ns = {1, 2}
 MaxDim = 3
 MaxOps = 8
 Emit = 0
SPECIFICATION Spec
INVARIANTS Current Geometry
VIEW View
CHECK_DEADLOCK FALSE
