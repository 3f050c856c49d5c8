CONSTANT Inners = 5
SPECIFICATION Spec
INVARIANTS Clean Separate SharedFlag
CHECK_DEADLOCK FALSE
