SPECIFICATION Spec
CONSTANTS Rates = {1, 3}
          Durs = {0, 2, 3, 4}
          MaxT = 10
          MaxOps = 4
INVARIANTS Quiet InTime OverrunsAreCounted
PROPERTIES NoneWhenStopped OncePerPeriod
