SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Step = 5
INVARIANTS Bounds TopIsHorizontal OneSide Shading Glass Acting Year
