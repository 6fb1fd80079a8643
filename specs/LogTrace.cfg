SPECIFICATION Spec
INVARIANT Consistent
