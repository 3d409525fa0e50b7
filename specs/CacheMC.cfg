SPECIFICATION Spec
CONSTANTS Keys = {"a", "b"}
 Vals = {"x", "y"}
 Insts = {1, 2}
INVARIANTS RoundTrip CleanIsNew StaleKnown
PROPERTIES OnlyWrites
