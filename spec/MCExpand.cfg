SPECIFICATION Spec
CONSTANTS Worlds <- MCWorlds ExportC = TRUE
INVARIANTS NoReentry Painted Agrees Export
PROPERTY Terminates
CHECK_DEADLOCK FALSE
