SPECIFICATION Spec
INVARIANT NoDuplicates
