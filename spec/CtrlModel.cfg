SPECIFICATION Spec
VIEW view
CONSTANTS
  NRuns = 2
  Touts = {2, 7}
  Nouts = {1, 2}
  Nsteps = {1, 2}
  StepChoices = {1, 2}
  Restarts = {0, 3}
  Emit = FALSE
INVARIANTS FramesTimed FilesAreFrames OthersKept Contiguous RefusalHarmless GaugeComplete
