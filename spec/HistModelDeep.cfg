CONSTANTS NPy = 2
 NCo = 4
 Slots = 3
 MaxInst = 3
 MaxPy = 3
 Segs = 2
 Emit = 0
SPECIFICATION Spec
INVARIANTS OwnData
