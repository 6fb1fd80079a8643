SPECIFICATION Spec
CONSTANTS Mode = "str"
 Depth = 1
VIEW View
INVARIANTS SortedDisjoint ReadAfterWrite InsertOnlyAdds OthersUntouched RoundTrip TextRoundTrip
