SPECIFICATION Spec
CONSTANTS Mode = "arr"
 Depth = 1
VIEW View
INVARIANTS SortedDisjoint ReadAfterWrite InsertOnlyAdds OthersUntouched RoundTrip TextRoundTrip
