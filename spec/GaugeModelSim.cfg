CONSTANTS Ids = {1, 7, 300, 123456}
 Slots = {1, 2}
 Dims = {1, 2, 3}
 Recs = {1, 2, 5}
 Fields = {1, 2, 3, 4}
 MaxOps = 16
 Emit = 1
SPECIFICATION SpecSim
INVARIANTS Report
CHECK_DEADLOCK FALSE
