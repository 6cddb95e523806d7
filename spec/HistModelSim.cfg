CONSTANTS NPy = 8
 NCo = 24
 Slots = 3
 MaxInst = 5
 MaxPy = 2
 Segs = 3
 Emit = 1
SPECIFICATION Spec
INVARIANTS OwnData Report
