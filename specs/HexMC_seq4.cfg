SPECIFICATION Spec
CONSTANTS Mode = "seq"
 Depth = 4
INVARIANTS ReadsAsMemory CaseInsensitive
