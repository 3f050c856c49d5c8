CONSTANTS
  Size <- Size21
  MaxN = 2
  Marks = {0, 1}
SPECIFICATION Spec
INVARIANTS Quotient Returns
CHECK_DEADLOCK FALSE
