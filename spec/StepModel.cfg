SPECIFICATION Spec
VIEW view
CONSTANTS
  Speeds = {0, 1, 3, 12}
  StageSpeeds = {0, 4}
  Ends = {1, 17}
  Dt0s = {2, 7}
  DtMaxs = {5, 100}
  Maxs = {3}
  CDs = {12}
  CM = 16
  NCalls = 2
  Horizon = 40
  Emit = FALSE
INVARIANTS TypeOK ReachesEnd NeverBeyond NoopBackward PerCallLimit KeptWithin
PROPERTIES RejectedAreShortened RejectedLeaveNoTrace MaxRespected TruthfulCount Progress
