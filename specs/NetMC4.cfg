SPECIFICATION Spec
CONSTANTS Clients = {c1, c2}
 MaxFrames = 4
 MaxStops = 2
 Drop = FALSE
INVARIANTS Delivered Ended
CHECK_DEADLOCK FALSE
