SPECIFICATION Spec
CONSTANTS MaxG = 40
 MaxN = 12
INVARIANTS Tiles OwnerContains Rescale RescaleTight Vectors
CHECK_DEADLOCK FALSE
