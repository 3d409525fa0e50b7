SPECIFICATION Spec
CONSTANTS Clients = {c1, c2}
 MaxFrames = 3
 MaxStops = 1
 Drop = FALSE
INVARIANTS Delivered Ended
CHECK_DEADLOCK FALSE
