SPECIFICATION Spec
CONSTANTS Names = {a, b, c}
          Ghosts = {}
INVARIANTS Once Ordered AllDone
PROPERTY Ends
