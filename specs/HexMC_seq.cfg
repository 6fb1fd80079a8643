SPECIFICATION Spec
CONSTANTS Mode = "seq"
 Depth = 3
INVARIANTS ReadsAsMemory CaseInsensitive
