SPECIFICATION Spec
CONSTANTS Threads = {t1, t2}
          States = {"x", "y", "z"}
          Initial = "x"
          MaxRuns = 4
INVARIANTS InAState OneRun Sequential Counted
CHECK_DEADLOCK FALSE
