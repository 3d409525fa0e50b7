SPECIFICATION Spec
CONSTANTS
  N = 3
  Confs = {{"http", "wscmd", "wstlm", "tcp", "udp"}, {"http", "wscmd", "app"}}
INVARIANT Emit
CHECK_DEADLOCK FALSE
