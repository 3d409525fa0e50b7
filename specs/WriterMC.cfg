SPECIFICATION Spec
CONSTANTS Outputs = {a, b, c}
          Frames = 3
INVARIANTS InOrder NoGaps Complete OnceGone Reported
PROPERTIES SilentAfter AllTaken
