SPECIFICATION Spec
VIEW view
CONSTANTS
  NRuns = 3
  Touts = {2, 5, 16}
  Nouts = {1, 2, 4}
  Nsteps = {1, 3}
  StepChoices = {1, 2}
  Restarts = {0, 3}
  Emit = FALSE
INVARIANTS FramesTimed FilesAreFrames OthersKept Contiguous RefusalHarmless GaugeComplete
