SPECIFICATION Spec
CONSTANTS Names = {a, b}
          Ghosts = {g, h}
INVARIANTS Once Ordered AllDone
PROPERTY Ends
