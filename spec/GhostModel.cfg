SPECIFICATION Spec
CONSTANTS
  Kinds = {"extrap", "periodic", "wall", "custom"}
  N1 = 2
  N2 = 3
  G = 2
  Emit = FALSE
  Acts = {11}
INVARIANTS ClosedForm InteriorUntouched SideIndependence
