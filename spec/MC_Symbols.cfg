SPECIFICATION Spec
CONSTANTS Kinds <- MCKinds
 Names <- MCNames
 Values <- MCValues
 MaxLines = 2
INVARIANTS Prefix Recovered
CHECK_DEADLOCK FALSE
