SPECIFICATION PSpec
VIEW PView
INVARIANT PInv
CONSTRAINT EmitPts
CHECK_DEADLOCK FALSE
