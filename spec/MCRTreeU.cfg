CONSTANTS
  Boxes <- Nest5
  MaxC = 2
  MinC = 1
  N = 4
  Slots = 1
  Unique = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS Refines NoEqualKeys TypeOK
CHECK_DEADLOCK FALSE
