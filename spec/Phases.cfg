SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxDays = 3
INVARIANTS Continuous Ordered MainFromTheFirstDay Complete LaidRight
PROPERTIES Ends Only
CONSTRAINT Keep
POSTCONDITION HandOver
