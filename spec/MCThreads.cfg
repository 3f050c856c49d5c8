SPECIFICATION Spec
INVARIANT Safe
INVARIANT Seen
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
