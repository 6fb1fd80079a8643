SPECIFICATION Spec
CONSTANTS Mode = "build"
 Depth = 3
VIEW View
INVARIANTS SortedDisjoint ReadAfterWrite InsertOnlyAdds OthersUntouched RoundTrip TextRoundTrip
