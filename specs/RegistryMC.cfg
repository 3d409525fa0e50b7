SPECIFICATION Spec
CONSTANTS Names = {a, b, c, d} Items = {x, y} Threads = {t1, t2} MaxAdds = 6
INVARIANTS Unique Dense Inverse Stable Injective
PROPERTIES GrowsOnly LookUpPure
