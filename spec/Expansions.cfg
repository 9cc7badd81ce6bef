SPECIFICATION XSpec
INVARIANT XInv
INVARIANT EmitSet
CHECK_DEADLOCK FALSE
