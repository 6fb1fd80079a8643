SPECIFICATION Spec
CONSTANTS Mode = "num"
 Depth = 1
VIEW View
INVARIANTS SortedDisjoint ReadAfterWrite InsertOnlyAdds OthersUntouched RoundTrip TextRoundTrip
