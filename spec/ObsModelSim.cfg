CONSTANTS Kinds = {"ascii", "hdf5", "vtk", "several", "aux", "p", "copy", "print", "coords", "gauge", "functional", "valid", "controller"}
 MaxSeg = 6
 MaxOps = 12
 InPlace = {}
 Emit = 1
SPECIFICATION SpecSim
INVARIANTS Report
CHECK_DEADLOCK FALSE
