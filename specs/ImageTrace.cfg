SPECIFICATION Spec
INVARIANT AllSortedDisjoint
