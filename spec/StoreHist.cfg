CONSTANTS NSols = 4
 NPre = 2
 NFrames = 2
 Fmts = {"ascii", "hdf5", "binary"}
 Len0 = 21
 Emit = 1
SPECIFICATION Spec
INVARIANTS OneFormat Report
CHECK_DEADLOCK FALSE
