SPECIFICATION Spec
CONSTANTS Clients = {a, b}
          PerClient = 2
          Known = {"one", "two", "raise", "none"}
          MaxWait = 1
          Torn = FALSE
INVARIANTS Own Ordered
PROPERTIES Served AllServed
