SPECIFICATION Spec
CONSTANTS MaxSteps = 9
          Restarts = FALSE
INVARIANT Sound
INVARIANT Prompt
INVARIANT NothingLost
INVARIANT Recoverable
INVARIANT Faithful

