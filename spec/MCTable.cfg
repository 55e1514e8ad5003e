SPECIFICATION Spec
CONSTANTS Depth = 3 NamesC = {"A", "B"} BodiesC <- MCBodies2 ParamsC <- MCParams2 ExportC = TRUE
INVARIANTS OneKind LatestDefinition ReportsExact Export
PROPERTY Refines
CHECK_DEADLOCK FALSE
