SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Clothed Warmer Percent
