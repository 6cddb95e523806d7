CONSTANTS NPy = 1
 NCo = 3
 Slots = 3
 MaxInst = 3
 MaxPy = 3
 Segs = 1
 Emit = 0
SPECIFICATION Spec
INVARIANTS OwnData
