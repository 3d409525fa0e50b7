SPECIFICATION Spec
CONSTANTS W = 4 MaxSize = 6 Streams = "over" Cuts = {1, 4, 6}
INVARIANT Out
