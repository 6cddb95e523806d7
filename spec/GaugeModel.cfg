CONSTANTS Ids = {1, 2}
 Slots = {1}
 Dims = {1, 2}
 Recs = {1, 2}
 Fields = {1, 3}
 MaxOps = 3
 Emit = 0
SPECIFICATION Spec
INVARIANTS RoundTrip BinRoundTrip Whole
PROPERTIES Noticed
VIEW View
CHECK_DEADLOCK FALSE
