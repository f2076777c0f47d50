SPECIFICATION Spec
CONSTANT Levels = 5
INVARIANTS ClosedForm OwnElement Operator
CHECK_DEADLOCK FALSE
