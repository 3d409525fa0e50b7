SPECIFICATION Spec
CONSTANTS
  N = 2
  Confs = {{"http", "wscmd", "wstlm", "tcp", "udp"}, {"http", "tcp"}, {"wstlm", "udp"}}
INVARIANT Emit
CHECK_DEADLOCK FALSE
