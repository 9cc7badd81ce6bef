SPECIFICATION GSpec
VIEW GView
INVARIANT GInv
CONSTRAINT EmitCell
CHECK_DEADLOCK FALSE
