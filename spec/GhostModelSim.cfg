SPECIFICATION Spec
CONSTANTS
  Kinds = {"extrap", "periodic", "wall", "custom"}
  N1 = 2
  N2 = 3
  G = 2
  Emit = TRUE
  Acts = {11, 1, 10}
INVARIANTS ClosedForm InteriorUntouched SideIndependence
