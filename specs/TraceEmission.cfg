SPECIFICATION Spec
CONSTANT Cap = 256
