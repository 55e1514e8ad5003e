SPECIFICATION Spec
INVARIANT JudgedK
CHECK_DEADLOCK FALSE
