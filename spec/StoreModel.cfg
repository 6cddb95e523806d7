CONSTANTS Frames = {0, 1}
 NSols = 2
 MaxOps = 3
 Overwrite = FALSE
SPECIFICATION Spec
INVARIANTS RoundTrip NoPartial Nothing
CHECK_DEADLOCK FALSE
