SPECIFICATION Spec
CONSTANTS Mode = "query"
 Depth = 1
VIEW View
INVARIANTS SortedDisjoint ReadAfterWrite InsertOnlyAdds OthersUntouched RoundTrip TextRoundTrip
