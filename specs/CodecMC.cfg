SPECIFICATION Spec
CONSTANTS Mtus = {18, 20, 22, 25, 28, 31, 39, 41, 63} Flips = TRUE
INVARIANTS Bounded RoundTrip Foreign Detected Prefix
