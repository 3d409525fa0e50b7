SPECIFICATION Spec
CONSTANTS Cap = 2 MaxOps = 4 Times = {1024, 1536, 3000} Mtus = {50, 40}
INVARIANTS Sizes OnceEach Chained Bounded EmittedAt
