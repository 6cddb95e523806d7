CONSTANTS Kinds = {"ascii", "copy", "gauge"}
 MaxSeg = 4
 MaxOps = 7
 InPlace = {}
 Emit = 0
SPECIFICATION Spec
INVARIANTS Unwatched
CHECK_DEADLOCK FALSE
