SPECIFICATION Spec
CONSTANTS W = 2
          Files <- AllFiles
INVARIANT Exact
INVARIANT Whole
PROPERTY Ends
