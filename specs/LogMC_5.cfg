SPECIFICATION Spec
CONSTANT MAXLEN = 5
INVARIANTS Once Logged Remembered
