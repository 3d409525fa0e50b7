SPECIFICATION Spec
CONSTANTS W = 4 MaxSize = 6 Streams = "long" Cuts = {3, 5, 7}
INVARIANT Out
