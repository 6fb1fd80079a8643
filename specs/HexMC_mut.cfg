SPECIFICATION Spec
CONSTANTS Mode = "mut"
 Depth = 1
INVARIANTS DigitErrorsCaught
