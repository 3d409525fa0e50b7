SPECIFICATION Spec
CONSTANTS Threads = {t1, t2}
          Consumers = {c1, c2}
          Scales = {0, 1, 2}
          MaxNow = 3
          MaxOps = 5
INVARIANTS NoneLost Agree
PROPERTIES Forward
CHECK_DEADLOCK FALSE
