SPECIFICATION Spec
INVARIANT JudgedFn
CHECK_DEADLOCK FALSE
