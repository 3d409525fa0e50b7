SPECIFICATION Spec
CONSTANTS W = 2 MaxFrames = 3 MaxLen = 2 MaxSize = 2 Bytes = {0, 1}
INVARIANTS InOrder Complete NothingFromOversized NeverTooLong Waiting
PROPERTY Delivered
