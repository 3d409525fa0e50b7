SPECIFICATION Spec
CONSTANTS Depth = 4
          Restarts = TRUE
INVARIANT Out
