CONSTANTS Parts = {"t", "q", "aux", "capa", "pd", "geom", "map"}
 Mutable = {"q", "aux", "pd", "geom"}
 MaxObj = 5
 MaxOps = 14
 Shared = {}
 Emit = 1
SPECIFICATION SpecSim
INVARIANTS Report
CHECK_DEADLOCK FALSE
