SPECIFICATION Spec
CONSTANTS W = 4 MaxSize = 6 Streams = "plain" Cuts = {1, 2, 3, 5}
INVARIANT Out
