SPECIFICATION Spec
INVARIANT JudgedV
CHECK_DEADLOCK FALSE
