SPECIFICATION Live
CONSTANTS
  Confs = {{}, {"http"}, {"http", "tcp"}}
  Threads = {1, 2}
  MaxOps = 1
  Retry = TRUE
INVARIANTS Down Reason Asked
PROPERTY Comes
