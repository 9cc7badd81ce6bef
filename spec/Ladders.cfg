SPECIFICATION LSpec
INVARIANT LInv
PROPERTY LProp
CONSTRAINT EmitRung
CHECK_DEADLOCK FALSE
