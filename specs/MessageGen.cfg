SPECIFICATION Spec
CONSTANTS Depth = 5
          Restarts = FALSE
INVARIANT Out
