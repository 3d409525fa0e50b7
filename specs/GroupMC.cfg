SPECIFICATION Spec
CONSTANTS Threads = {t1, t2, t3}
          Channels = {c1, c2, c3}
          MaxOps = 5
INVARIANTS NoMixture Mutex
CHECK_DEADLOCK FALSE
