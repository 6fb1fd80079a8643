SPECIFICATION Spec
CONSTANT MAXLEN = 4
INVARIANTS NoDuplicates FirstWins
PROPERTY Stable
