CONSTANTS Fams = {"c1", "v1", "p1", "s1", "t1", "c2", "v2", "s2", "v3"}
 MaxBad = 3
 Emit = 0
SPECIFICATION Spec
INVARIANTS Untouched Justified Report
PROPERTIES Decided
CHECK_DEADLOCK FALSE
