SPECIFICATION Spec
CONSTANTS
  Kinds = {"extrap", "periodic", "wall", "custom"}
  N1 = 3
  N2 = 4
  G = 3
  Emit = FALSE
  Acts = {11, 1, 10, 0}
INVARIANTS ClosedForm InteriorUntouched SideIndependence
