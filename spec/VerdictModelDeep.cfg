CONSTANTS Langs = {"Fortran", "Python", "C"}
 Vals = {0, 1, 2, 5, 999999}
 Ms = {0, 1, 4, 16, 100}
 Ws = {1, 2}
 Lens = {1, 2, 3}
 MaxVar = 3
 Emit = 1
SPECIFICATION Spec
INVARIANTS Once Own Sound Complete Report
CHECK_DEADLOCK FALSE
