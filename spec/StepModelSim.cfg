SPECIFICATION Spec
CONSTANTS
  Speeds = {0, 1, 2, 3, 4, 6, 12}
  StageSpeeds = {0, 1, 2, 4, 6}
  Ends = {1, 5, 12, 17, 30}
  Dt0s = {1, 2, 7, 16, 20}
  DtMaxs = {5, 12, 100}
  Maxs = {1, 3, 6, 50}
  CDs = {12}
  CM = 16
  NCalls = 4
  Horizon = 200
  Emit = TRUE
INVARIANTS TypeOK ReachesEnd NeverBeyond NoopBackward PerCallLimit KeptWithin
