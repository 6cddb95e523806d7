CONSTANTS Frames = {0, 1}
 NSols = 4
 MaxOps = 4
 Overwrite = FALSE
SPECIFICATION Spec
INVARIANTS RoundTrip NoPartial Nothing
CHECK_DEADLOCK FALSE
