SPECIFICATION Spec
CONSTANTS Producers = {p, r}
          PerProducer = 2
          Cap = 2
          MaxOps = 5
INVARIANTS Once Fifo
PROPERTIES Drained StillAfter StopEnds
