CONSTANTS Parts = {"t", "q", "pd"}
 Mutable = {"q", "pd"}
 MaxObj = 3
 MaxOps = 5
 Shared = {}
 Emit = 0
SPECIFICATION Spec
INVARIANTS Independent
PROPERTIES Frame Faithful Continues
VIEW View
CHECK_DEADLOCK FALSE
