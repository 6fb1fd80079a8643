SPECIFICATION Spec
CONSTANT MAXLEN = 3
INVARIANTS NoDuplicates FirstWins
PROPERTY Stable
