SPECIFICATION CSpec
INVARIANT CInv
CONSTRAINT EmitAsk
CHECK_DEADLOCK FALSE
