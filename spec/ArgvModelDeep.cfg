CONSTANTS Names = {"a", "b", "outdir", "iplot"}
 MaxTok = 3
 Few = 3
 Emit = 0
SPECIFICATION Spec
INVARIANTS Whole Function Local
CHECK_DEADLOCK FALSE
