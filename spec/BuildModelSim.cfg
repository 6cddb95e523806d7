CONSTANTS Sfs = {"int", "pair", "state", "states", "tstates", "none", "text", "empty", "real"}
 Gfs = {"domain", "domain3", "dims", "tdims", "dim", "patch", "patches", "tpatches", "number", "nothing", "empty", "text"}
 Pats <- SimPats
 MaxPats = 3
 Nes = {1, 2, 3, 5}
 Nas = {0, 0, 1, 2, 4}
 Vals = {1, 2, 3, 7}
 MaxOps = 8
 Emit = 1
SPECIFICATION SpecSim
INVARIANTS Agree Report
CHECK_DEADLOCK FALSE
