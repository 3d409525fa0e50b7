SPECIFICATION Spec
CONSTANTS MaxSteps = 6
          Restarts = TRUE
INVARIANT Sound
INVARIANT Prompt
INVARIANT NothingLost
INVARIANT Recoverable
INVARIANT Faithful

