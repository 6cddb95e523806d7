CONSTANTS Parts = {"t", "q", "pd", "geom"}
 Mutable = {"q", "pd", "geom"}
 MaxObj = 3
 MaxOps = 6
 Shared = {}
 Emit = 0
SPECIFICATION Spec
INVARIANTS Independent
PROPERTIES Frame Faithful Continues
VIEW View
CHECK_DEADLOCK FALSE
