SPECIFICATION Spec
CONSTANTS Mode = "digits"
 Depth = 1
INVARIANTS WriterExists
