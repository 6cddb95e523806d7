CONSTANTS N = 5
 QMax = 3
 MA = 3
 MK = 2
SPECIFICATION Spec
INVARIANTS Conserved ConservedB TVD Range ConstantStays
