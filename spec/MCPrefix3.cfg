SPECIFICATION Spec
INVARIANT Inv
CONSTANT Body = 3
