SPECIFICATION Live
CONSTANTS
  Confs = {{}, {"http"}, {"http", "tcp"}, {"http", "tcp", "app"}}
  Threads = {1, 2}
  MaxOps = 2
  Retry = TRUE
INVARIANTS Down Reason Asked
PROPERTY Comes
