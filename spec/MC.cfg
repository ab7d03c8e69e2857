INIT Init
NEXT Next
INVARIANTS
  Inv
  ChunkInv
  Emit
CHECK_DEADLOCK FALSE
