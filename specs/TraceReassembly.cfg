SPECIFICATION Spec
CONSTANT W = 4
