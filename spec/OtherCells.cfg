SPECIFICATION OSpec
VIEW OView
INVARIANT OInv
CONSTRAINT EmitOther
CHECK_DEADLOCK FALSE
