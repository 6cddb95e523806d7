CONSTANTS Names = {"a", "b", "num_cells", "outdir", "use_petscx", "htmlplot", "iplot"}
 MaxTok = 5
 Few = 0
 Emit = 1
SPECIFICATION SpecSim
INVARIANTS Whole Function Local Report
CHECK_DEADLOCK FALSE
