SPECIFICATION Spec
CONSTANTS Clients = {c1, c2}
          MaxOps = 5
INVARIANTS OneTask TypeOK IdleMeansNone Alternate
PROPERTIES LegalMoves StopMeansEnded Answered
