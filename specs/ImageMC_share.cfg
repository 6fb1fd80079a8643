SPECIFICATION Spec
CONSTANTS Mode = "share"
 Depth = 3
VIEW View
INVARIANTS SortedDisjoint ReadAfterWrite InsertOnlyAdds OthersUntouched RoundTrip TextRoundTrip
