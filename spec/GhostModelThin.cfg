SPECIFICATION Spec
CONSTANTS
  Kinds = {"extrap", "periodic", "custom"}
  N1 = 1
  N2 = 2
  G = 2
  Emit = FALSE
  Acts = {11, 1, 10}
INVARIANTS ClosedForm InteriorUntouched SideIndependence
