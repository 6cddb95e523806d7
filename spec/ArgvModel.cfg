CONSTANTS Names = {"a", "b", "iplot"}
 MaxTok = 3
 Few = 6
 Emit = 0
SPECIFICATION Spec
INVARIANTS Whole Function Local
CHECK_DEADLOCK FALSE
