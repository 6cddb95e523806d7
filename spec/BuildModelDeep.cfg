CONSTANTS Sfs = {"int", "pair", "state", "states", "tstates", "none", "text"}
 Gfs = {"domain", "domain3", "dims", "dim", "patch", "patches", "number", "nothing"}
 Pats <- SmallPats
 MaxPats = 2
 Nes = {1, 2}
 Nas = {0, 1}
 Vals = {1, 2}
 MaxOps = 3
 Emit = 0
SPECIFICATION Spec
INVARIANTS Agree
PROPERTIES Steady Whole
VIEW View
CHECK_DEADLOCK FALSE
