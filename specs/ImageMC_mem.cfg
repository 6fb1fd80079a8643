SPECIFICATION Spec
CONSTANTS Mode = "mem"
 Depth = 2
VIEW View
INVARIANTS SortedDisjoint ReadAfterWrite InsertOnlyAdds OthersUntouched RoundTrip TextRoundTrip
