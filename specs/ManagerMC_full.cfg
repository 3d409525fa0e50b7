SPECIFICATION Spec
CONSTANTS Names = {a, b, c}
          Ghosts = {g}
INVARIANTS Once Ordered AllDone
