SPECIFICATION Spec
INVARIANT Inv
CONSTANT Body = 2
