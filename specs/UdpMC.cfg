SPECIFICATION Spec
CONSTANTS Hosts = {a, b}
          Requests = {r, s}
          Frames = 3
INVARIANTS ClosedOnce OpenWhileAttached NoneMissing NoneLeft
PROPERTIES AllSent
