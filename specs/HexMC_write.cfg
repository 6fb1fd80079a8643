SPECIFICATION Spec
CONSTANTS Mode = "write"
 Depth = 1
INVARIANTS WriterExists
