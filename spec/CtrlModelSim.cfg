SPECIFICATION Spec
CONSTANTS
  NRuns = 3
  Touts = {2, 5, 16, 24}
  Nouts = {1, 2, 3}
  Nsteps = {1, 2, 3}
  StepChoices = {1, 2}
  Restarts = {0, 3}
  Emit = TRUE
INVARIANTS FramesTimed FilesAreFrames OthersKept Contiguous RefusalHarmless GaugeComplete
