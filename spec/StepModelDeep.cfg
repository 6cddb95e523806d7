SPECIFICATION Spec
VIEW view
CONSTANTS
  Speeds = {0, 1, 2, 3, 4, 12}
  StageSpeeds = {0, 1, 4, 6}
  Ends = {1, 5, 12, 17, 30}
  Dt0s = {1, 2, 7, 20}
  DtMaxs = {5, 12, 100}
  Maxs = {1, 4}
  CDs = {12}
  CM = 16
  NCalls = 2
  Horizon = 60
  Emit = FALSE
INVARIANTS TypeOK ReachesEnd NeverBeyond NoopBackward PerCallLimit KeptWithin
PROPERTIES RejectedAreShortened RejectedLeaveNoTrace MaxRespected TruthfulCount Progress
