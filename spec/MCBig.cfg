SPECIFICATION Spec
CONSTANT S <- MCS
INVARIANTS AgreesWithIntegers RoundsRight
