SPECIFICATION Spec
INVARIANT NoViolation
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
