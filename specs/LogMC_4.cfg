SPECIFICATION Spec
CONSTANT MAXLEN = 4
INVARIANTS Once Logged Remembered
