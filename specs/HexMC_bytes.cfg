SPECIFICATION Spec
CONSTANTS Mode = "bytes"
 Depth = 1
INVARIANTS ReadsAsMemory
